From bb6ce4e7d2c4a65ea62a08a90d25c8e94e26ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 01/48] fix: make ifle hold for equal values

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From 0190864ce64528969b2967e3c57501abddcfa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 02/48] fix: do not start a tag with the braces of an escaped
 one

---
 stuart-core/src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index bf76b0c..7973e28 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -87,16 +87,20 @@ impl<'a> Parser<'a> {
         let mut result = String::with_capacity(128);
         let old_chars = self.chars.clone();
 
+        // End of the last escaped occurrence, whose characters cannot be part of another one.
+        let mut escaped_end = 0;
+
         loop {
             if let Ok(c) = self.next() {
                 result.push(c);
 
-                if result.ends_with(s) {
+                if result[escaped_end..].ends_with(s) {
                     if allow_escape
                         && result.len() > s.len()
                         && result.as_bytes()[result.len() - s.len() - 1] == b'\\'
                     {
                         result.remove(result.len() - s.len() - 1);
+                        escaped_end = result.len();
                         continue;
                     }
 
-- 
2.43.0


From 38007676dd333230357f15a90a6bc3e6a6b3790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 03/48] fix: reject an argument that is a lone quote instead of
 panicking

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..79615bc 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() >= 2 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From acc8ab58abdbe810f7deeefe5b9c3c388cbc9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 04/48] fix: reject a variable argument without a name

---
 stuart-core/src/parse/function.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index 79615bc..7bcaf63 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -38,9 +38,10 @@ impl RawArgument {
 
             let variable_name = arg.strip_prefix('$').unwrap();
 
-            if !variable_name
-                .chars()
-                .all(|c| c.is_alphanumeric() || c == '_' || c == '.')
+            if variable_name.is_empty()
+                || !variable_name
+                    .chars()
+                    .all(|c| c.is_alphanumeric() || c == '_' || c == '.')
             {
                 return Err(ParseError::InvalidVariableName(variable_name.to_string()));
             }
-- 
2.43.0


From 6ba504b83d2a586a43a39aad480c549dd43d9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 05/48] fix: reject a repeated order argument of for, as for
 its other arguments

---
 stuart-core/src/functions/parsers/for.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..02845f4 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -69,7 +69,7 @@ impl FunctionParser for ForParser {
         let mut skip = None;
         let mut limit = None;
         let mut sort_variable = None;
-        let mut sort_order = SortOrder::Asc;
+        let mut sort_order = None;
 
         for (name, arg) in &raw.named_args {
             match name.as_str() {
@@ -102,9 +102,11 @@ impl FunctionParser for ForParser {
                     sort_variable = Some(arg.as_variable().unwrap().to_string());
                 }
                 "order" => {
+                    quiet_assert!(sort_order.is_none())?;
+
                     sort_order = match arg.as_string() {
-                        Some("asc") => SortOrder::Asc,
-                        Some("desc") => SortOrder::Desc,
+                        Some("asc") => Some(SortOrder::Asc),
+                        Some("desc") => Some(SortOrder::Desc),
                         _ => return Err(ParseError::InvalidArgument),
                     };
                 }
@@ -119,7 +121,7 @@ impl FunctionParser for ForParser {
             skip,
             limit,
             sort_variable,
-            sort_order,
+            sort_order: sort_order.unwrap_or(SortOrder::Asc),
         }))
     }
 }
-- 
2.43.0


From 058768a6a66cb4a81b68183f9b7b67af10ac3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 06/48] fix: compare numbers without truncating them to
 integers

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..637012a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..ecaf446 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From 4abb691a6f6297c10cc4ec9b9fad01999407e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 07/48] fix: skip blocks nested in a branch which is not taken
 as a whole

---
 stuart-core/src/functions/mod.rs               |  8 ++++++++
 stuart-core/src/functions/parsers/if.rs        | 12 +++++++++++-
 stuart-core/src/functions/parsers/ifdefined.rs | 14 ++++++++++++--
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 637012a..246153a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -175,6 +175,14 @@ macro_rules! quiet_assert {
     };
 }
 
+/// Returns true if the function with the given name opens a block which is closed by `end`.
+pub(crate) fn opens_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
+
 /// Returns true if the string is an identifier of a function.
 #[inline]
 pub fn is_ident(s: &str) -> bool {
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index ecaf446..18d0b33 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,9 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        // Number of blocks open inside the branch which is being skipped.
+                        let mut skipped_depth: usize = 0;
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -77,13 +80,20 @@ macro_rules! if_parsers {
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
-                                    && scope.stack.len() == stack_height + 1)
+                                    && scope.stack.len() == stack_height + 1
+                                    && skipped_depth == 0)
                             {
                                 token.process(scope)?;
 
                                 if function_name == Some("else".to_string()) {
                                     condition = !condition;
                                 }
+                            } else if let Some(name) = function_name {
+                                if $crate::functions::opens_block(&name) {
+                                    skipped_depth += 1;
+                                } else if name == "end" {
+                                    skipped_depth -= 1;
+                                }
                             }
                         }
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..ff8c432 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,9 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        // Number of blocks open inside the branch which is being skipped.
+        let mut skipped_depth: usize = 0;
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -62,13 +65,20 @@ impl Function for IfDefinedFunction {
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-                    && scope.stack.len() == stack_height + 1)
+                    && scope.stack.len() == stack_height + 1
+                    && skipped_depth == 0)
             {
                 token.process(scope)?;
 
                 if function_name == Some("else".to_string()) {
                     defined = !defined;
                 }
+            } else if let Some(name) = function_name {
+                if opens_block(&name) {
+                    skipped_depth += 1;
+                } else if name == "end" {
+                    skipped_depth -= 1;
+                }
             }
         }
 
-- 
2.43.0


From 7d07054e544001f36b72edc03019e50825ed4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 08/48] fix: skip the body of a for loop which selects no items

---
 stuart-core/src/functions/parsers/for.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 02845f4..ebfc856 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -230,6 +230,28 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut variable_iter = variable_iter.peekable();
+
+        if variable_iter.peek().is_none() {
+            // There is nothing to iterate over, so skip the body of the loop.
+            let mut depth: usize = 1;
+
+            while depth > 0 {
+                let token = scope
+                    .tokens
+                    .next()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+                if let Some(function) = token.as_function() {
+                    if opens_block(function.name()) {
+                        depth += 1;
+                    } else if function.name() == "end" {
+                        depth -= 1;
+                    }
+                }
+            }
+        }
+
         for variable in variable_iter {
             scope.tokens.rewind_to(waypoint);
 
-- 
2.43.0


From c576fff18147d8e720de87e9d6278c1af1e932b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 09/48] fix: reject a root HTML file which leaves a block open

---
 stuart-core/src/process/mod.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..b45cbb1 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -16,6 +16,8 @@ use crate::{Environment, Error, Stuart};
 use humphrey_json::Value;
 use pulldown_cmark::{html, Options, Parser};
 
+use std::path::Path;
+
 /// Represents the scope of a function execution.
 pub struct Scope<'a> {
     /// The token iterator.
@@ -49,6 +51,18 @@ pub struct ProcessOutput {
     pub new_name: Option<String>,
 }
 
+/// Generates the error for a root HTML file which leaves a block open.
+fn root_stack_error(root: &[LocatableToken], source: &Path) -> TracebackError<ProcessError> {
+    TracebackError {
+        path: root
+            .last()
+            .map_or_else(|| source.to_path_buf(), |token| token.path.clone()),
+        line: 0,
+        column: 0,
+        kind: ProcessError::StackError,
+    }
+}
+
 impl Node {
     /// Processes a node, returning an output node.
     pub fn process(&self, processor: &Stuart, env: Environment) -> Result<Node, Error> {
@@ -135,8 +149,14 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or_else(|| root_stack_error(root, self.source()))?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -206,10 +226,16 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or_else(|| root_stack_error(root, self.source()))?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From 72c689554658a2b70d03d32341d8842f8dac1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 10/48] fix: do not panic when a Markdown body refers to a
 Markdown file which is not rendered yet

---
 stuart-core/src/parse/markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..b9b3dcd 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -106,7 +106,12 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+
+        // The HTML is not available yet if the file has not been preprocessed.
+        if let Some(html) = &self.html {
+            v["content"] = Value::String(html.clone());
+        }
+
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 3f5132f493b033d12eebd0eec6f0fd2f5106e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 11/48] fix: count characters of text, not bytes and tags, in
 excerpt

---
 stuart-core/src/functions/parsers/excerpt.rs | 26 +++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..9141dfb 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -58,31 +58,27 @@ impl Function for ExcerptFunction {
             })
         })?;
 
-        let mut chars = string.chars();
+        let chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
         let mut total_chars: usize = 0;
 
-        while excerpt.len() < self.length {
-            if let Some(ch) = chars.next() {
-                if ch == '<' {
-                    tag = true;
-                } else if ch == '>' {
-                    tag = false;
-                } else if !tag {
-                    excerpt.push(ch);
+        for ch in chars {
+            if ch == '<' {
+                tag = true;
+            } else if ch == '>' {
+                tag = false;
+            } else if !tag {
+                if total_chars == self.length {
+                    excerpt.push_str("...");
+                    break;
                 }
 
+                excerpt.push(ch);
                 total_chars += 1;
-            } else {
-                break;
             }
         }
 
-        if total_chars < string.len() {
-            excerpt.push_str("...");
-        }
-
         scope.output(excerpt).map_err(|e| self_token.traceback(e))?;
 
         Ok(())
-- 
2.43.0


From c1dbe12885477617c6908b461c3895427bba12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 12/48] fix: do not panic if an environment variable is not
 valid Unicode

---
 stuart-core/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..8cc750f 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,14 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            let mut env = std::env::vars_os()
+                .map(|(k, v)| {
+                    (
+                        k.to_string_lossy().into_owned(),
+                        v.to_string_lossy().into_owned(),
+                    )
+                })
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From 30f0a6f6bcd4f0298cd44b82854b2b3e89b892e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 13/48] fix: let the environment of the build take precedence
 over an inherited STUART_ENV

---
 stuart-core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 8cc750f..3dc7853 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -143,6 +143,7 @@ impl Stuart {
                         v.to_string_lossy().into_owned(),
                     )
                 })
+                .filter(|(k, _)| k != "STUART_ENV")
                 .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
-- 
2.43.0


From 88b33817fc23c017e1c783f63113ab0a3d8a4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 14/48] fix: count the lines of the front matter in the
 locations of a Markdown body

---
 stuart-core/src/parse/markdown.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index b9b3dcd..9c512d1 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -89,7 +89,16 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    // Locations in the body are relative to the end of the front matter.
+    let first_line = lines_to_skip as u32;
+    let mut markdown = parse_html(&raw_markdown, path, plugins).map_err(|mut e| {
+        e.line += first_line;
+        e
+    })?;
+
+    for token in &mut markdown {
+        token.line += first_line;
+    }
 
     Ok(ParsedMarkdown {
         frontmatter,
-- 
2.43.0


From 25206cd5dbef1cbe726159b54c77dc7d7deb71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 15/48] fix: do not panic when showing an error which has no
 line

---
 stuart/src/error.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..5e32cbf 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,10 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        let line = read_to_string(&self.path).ok().and_then(|s| {
+            let index = (self.line as usize).checked_sub(1)?;
+            s.lines().nth(index).map(|s| s.to_string())
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From e7cdda1783a744da5d161df1e1f05c0bc7c395ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 16/48] fix: report errors while listing a directory instead of
 leaving entries out

---
 stuart-core/src/fs/mod.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..9961efd 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -171,16 +171,17 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
-        let children = content
-            .flatten()
-            .map(|path| {
-                let path = path.path();
-
-                match metadata(&path).map(|m| m.file_type()) {
-                    Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-                    Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
-                    _ => Err(Error::Fs(FsError::Read)),
-                }
+        let paths = content
+            .map(|entry| entry.map(|entry| entry.path()))
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| Error::Fs(FsError::Read))?;
+
+        let children = paths
+            .into_iter()
+            .map(|path| match metadata(&path).map(|m| m.file_type()) {
+                Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
+                Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
+                _ => Err(Error::Fs(FsError::Read)),
             })
             .collect::<Result<_, _>>()?;
 
-- 
2.43.0


From b7978b36cf9987915c8519e23fce0d2ed728c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 17/48] fix: visit the files of a directory in the order of
 their names

---
 stuart-core/src/fs/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 9961efd..0dee8ca 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -171,11 +171,14 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
-        let paths = content
+        let mut paths = content
             .map(|entry| entry.map(|entry| entry.path()))
             .collect::<Result<Vec<_>, _>>()
             .map_err(|_| Error::Fs(FsError::Read))?;
 
+        // The operating system lists directories in an arbitrary order.
+        paths.sort();
+
         let children = paths
             .into_iter()
             .map(|path| match metadata(&path).map(|m| m.file_type()) {
-- 
2.43.0


From 15eb6d1a2e8c374198cac351e07592154b45af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 18/48] fix: only leave templates and data files of the content
 directory out of the output

---
 stuart-core/src/fs/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0dee8ca..98aec36 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,6 +14,7 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::ffi::OsStr;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
 use std::io::ErrorKind;
@@ -355,11 +356,19 @@ impl Node {
                 name,
                 contents,
                 parsed_contents,
+                source,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                // Only input files of the content directory can be templates and data files.
+                let is_source = |name: &str| {
+                    !parsed_contents.is_ignored() && source.file_name() == Some(OsStr::new(name))
+                };
+                let is_data_file =
+                    !parsed_contents.is_ignored() && source.extension() == Some(OsStr::new("json"));
+
+                if !is_source("root.html")
+                    && !is_source("md.html")
+                    && (config.save_data_files || !is_data_file)
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From 3a41e2c27b38e4efb7619bd24408de66ab6b22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 19/48] fix: fail before saving if two files would be saved to
 the same path

---
 stuart-core/src/fs/mod.rs | 140 +++++++++++++++++++++++++-------------
 1 file changed, 91 insertions(+), 49 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 98aec36..455f42a 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,6 +14,7 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::collections::HashMap;
 use std::ffi::OsStr;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
@@ -266,6 +267,11 @@ impl Node {
     pub fn save(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
+        let mut outputs = HashMap::new();
+        for child in self.children().unwrap_or_default() {
+            child.check_conflicts(Path::new(""), config, &mut outputs)?;
+        }
+
         if path.exists() && path.is_dir() {
             remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
         }
@@ -295,7 +301,8 @@ impl Node {
     }
 
     /// Merge two virtual filesystem trees into a single virtual filesystem tree.
-    /// This will return an error if two files share the same path.
+    /// If two files share the same path, both are kept, and saving the tree will return an error unless they are
+    ///   saved to different paths.
     pub fn merge(&mut self, other: Node) -> Result<(), Error> {
         match (self, other) {
             (
@@ -306,22 +313,10 @@ impl Node {
                 },
             ) => {
                 for other_child in other_children {
-                    if let Some(child) = children
-                        .iter_mut()
-                        .find(|child| child.name() == other_child.name())
-                    {
-                        // This is definitely not the best way of doing this (it should be done through destructuring in a match statement),
-                        //   but I can't seem to get around lifetime problems with the other way.
-                        if matches!(child, Self::Directory { .. })
-                            && matches!(other_child, Self::Directory { .. })
-                        {
-                            child.merge(other_child)?;
-                        } else {
-                            return Err(Error::Fs(FsError::Conflict(
-                                child.source().to_path_buf(),
-                                other_child.source().to_path_buf(),
-                            )));
-                        }
+                    if let Some(child) = children.iter_mut().find(|child| {
+                        child.name() == other_child.name() && child.is_dir() && other_child.is_dir()
+                    }) {
+                        child.merge(other_child)?;
                     } else {
                         children.push(other_child);
                     }
@@ -352,45 +347,92 @@ impl Node {
                     child.save_recur(&dir, config)?;
                 }
             }
+            Self::File { contents, .. } => match self.output_file(config) {
+                Some((Some(directory_name), name)) => {
+                    let dir = path.join(directory_name);
+
+                    match create_dir(&dir) {
+                        Ok(_) => (),
+                        Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
+                        Err(_) => return Err(Error::Fs(FsError::Write)),
+                    };
+
+                    write(dir.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                }
+                Some((None, name)) => {
+                    write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                }
+                None => (),
+            },
+        }
+
+        Ok(())
+    }
+
+    /// Returns the directory, if it has one of its own, and the name which this file is saved to, if it is to be saved.
+    fn output_file(&self, config: &Config) -> Option<(Option<&str>, &str)> {
+        let (name, parsed_contents, source) = match self {
             Self::File {
                 name,
-                contents,
                 parsed_contents,
                 source,
                 ..
-            } => {
-                // Only input files of the content directory can be templates and data files.
-                let is_source = |name: &str| {
-                    !parsed_contents.is_ignored() && source.file_name() == Some(OsStr::new(name))
-                };
-                let is_data_file =
-                    !parsed_contents.is_ignored() && source.extension() == Some(OsStr::new("json"));
-
-                if !is_source("root.html")
-                    && !is_source("md.html")
-                    && (config.save_data_files || !is_data_file)
-                {
-                    if config.strip_extensions
-                        && name.ends_with(".html")
-                        && name != "index.html"
-                        && !parsed_contents.is_ignored()
-                    {
-                        let directory_name = name.strip_suffix(".html").unwrap().to_string();
-                        let dir = path.join(directory_name);
-
-                        match create_dir(&dir) {
-                            Ok(_) => (),
-                            Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
-                            Err(_) => return Err(Error::Fs(FsError::Write)),
-                        };
-
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
-                    } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
-                    }
+            } => (name, parsed_contents, source),
+            Self::Directory { .. } => return None,
+        };
+
+        if parsed_contents.is_ignored() {
+            return Some((None, name));
+        }
+
+        // Only input files of the content directory can be templates and data files.
+        if source.file_name() == Some(OsStr::new("root.html"))
+            || source.file_name() == Some(OsStr::new("md.html"))
+            || (!config.save_data_files && source.extension() == Some(OsStr::new("json")))
+        {
+            return None;
+        }
+
+        match name.strip_suffix(".html") {
+            Some(directory_name) if config.strip_extensions && name != "index.html" => {
+                Some((Some(directory_name), "index.html"))
+            }
+            _ => Some((None, name)),
+        }
+    }
+
+    /// Checks that no file of this node and its descendants is saved to the path of another file or of a directory.
+    fn check_conflicts<'a>(
+        &'a self,
+        path: &Path,
+        config: &Config,
+        outputs: &mut HashMap<PathBuf, (&'a Node, bool)>,
+    ) -> Result<(), Error> {
+        let mut add = |path: PathBuf, is_dir: bool| match outputs.insert(path, (self, is_dir)) {
+            Some((other, other_is_dir)) if !is_dir || !other_is_dir => Err(Error::Fs(
+                FsError::Conflict(other.source().to_path_buf(), self.source().to_path_buf()),
+            )),
+            _ => Ok(()),
+        };
+
+        match self {
+            Self::Directory { name, children, .. } => {
+                let path = path.join(name);
+                add(path.clone(), true)?;
+
+                for child in children {
+                    child.check_conflicts(&path, config, outputs)?;
                 }
             }
+            Self::File { .. } => match self.output_file(config) {
+                Some((Some(directory_name), name)) => {
+                    let path = path.join(directory_name);
+                    add(path.clone(), true)?;
+                    add(path.join(name), false)?;
+                }
+                Some((None, name)) => add(path.join(name), false)?,
+                None => (),
+            },
         }
 
         Ok(())
-- 
2.43.0


From 0c1bf0205b26bb24f6bfaa06ef269b65eb5ed744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 20/48] fix: save a file whose whole name is `.html` under its
 own name

---
 stuart-core/src/fs/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 455f42a..a1b029e 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -394,7 +394,11 @@ impl Node {
         }
 
         match name.strip_suffix(".html") {
-            Some(directory_name) if config.strip_extensions && name != "index.html" => {
+            Some(directory_name)
+                if config.strip_extensions
+                    && !directory_name.is_empty()
+                    && name != "index.html" =>
+            {
                 Some((Some(directory_name), "index.html"))
             }
             _ => Some((None, name)),
-- 
2.43.0


From abc6de779e40702d3af97b0c3e03d3257335092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 21/48] fix: fail instead of overflowing the stack on deeply
 nested blocks

---
 stuart-core/src/error.rs       | 2 ++
 stuart-core/src/process/mod.rs | 8 ++++++++
 stuart/src/error.rs            | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 74dc17d..51113fb 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -83,6 +83,8 @@ pub enum ProcessError {
     MissingMarkdownRoot,
     /// An error occurred with the stack.
     StackError,
+    /// Too many blocks are nested within each other.
+    NestingTooDeep,
     /// An `end(x)` function was called without a previous `begin(x)`.
     EndWithoutBegin,
     /// An `else()` function was called without a previous `ifeq`, `ifne`, etc.
diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index b45cbb1..c962fff 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -51,6 +51,9 @@ pub struct ProcessOutput {
     pub new_name: Option<String>,
 }
 
+/// The maximum number of blocks which may be open at the same time.
+const MAX_NESTING_DEPTH: usize = 128;
+
 /// Generates the error for a root HTML file which leaves a block open.
 fn root_stack_error(root: &[LocatableToken], source: &Path) -> TracebackError<ProcessError> {
     TracebackError {
@@ -307,6 +310,11 @@ impl LocatableToken {
                 .output
                 .extend_from_slice(raw.as_bytes()),
 
+            // Functions which execute other functions are limited by the size of the native stack.
+            Token::Function(_) if scope.stack.len() > MAX_NESTING_DEPTH => {
+                return Err(self.traceback(ProcessError::NestingTooDeep))
+            }
+
             Token::Function(function) => function.execute(scope)?,
 
             Token::Variable(variable) => {
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index 5e32cbf..81100a0 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -271,6 +271,7 @@ impl StuartError for ProcessError {
             ProcessError::MissingHtmlRoot => "cannot find `root.html` template".display(buf),
             ProcessError::MissingMarkdownRoot => "cannot find `md.html` template".display(buf),
             ProcessError::StackError => "stack error".display(buf),
+            ProcessError::NestingTooDeep => "too many nested blocks".display(buf),
             ProcessError::EndWithoutBegin => "no matching `begin` for `end`".display(buf),
             ProcessError::ElseWithoutIf => "no matching `if` for `else`".display(buf),
             ProcessError::NotJsonArray => "not a json array".display(buf),
@@ -320,6 +321,7 @@ impl StuartError for ProcessError {
             ProcessError::StackError => {
                 Some("this shouldn't have happened, please open an issue!".to_string())
             }
+            ProcessError::NestingTooDeep => None,
             ProcessError::EndWithoutBegin => None,
             ProcessError::ElseWithoutIf => None,
             ProcessError::NotJsonArray => {
-- 
2.43.0


From aa6e07fde1f762be768cef04491f6eef649bd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 22/48] fix: refuse to build into an output directory which
 holds the sources of the project

---
 stuart/src/build.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..e682a93 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -120,8 +120,46 @@ impl StuartContext {
         })
     }
 
+    /// Checks that saving the site to the output directory, which replaces the whole directory,
+    ///   cannot replace any sources of the project.
+    fn check_output(&self) -> Result<(), Box<dyn StuartError>> {
+        // The directory might not exist yet.
+        let output = self.project_dir.join(&self.output);
+        let output = output.canonicalize().ok().or_else(|| {
+            let parent = output.parent()?.canonicalize().ok()?;
+            Some(parent.join(output.file_name()?))
+        });
+
+        let output = match output {
+            Some(output) => output,
+            None => return Ok(()),
+        };
+
+        let is_source = |dir: &str| {
+            let dir = self.project_dir.join(dir);
+            let dir = dir.canonicalize().unwrap_or(dir);
+
+            output.starts_with(&dir) || dir.starts_with(&output)
+        };
+
+        if self.project_dir.starts_with(&output)
+            || ["content", "static", "scripts", "temp"]
+                .into_iter()
+                .any(is_source)
+        {
+            return Err(Box::new(format!(
+                "invalid output directory `{}`, as it would replace the sources of the project",
+                self.output
+            )));
+        }
+
+        Ok(())
+    }
+
     /// Builds the site with the given configuration.
     pub fn build(&mut self) -> Result<BuildInfo, Box<dyn StuartError>> {
+        self.check_output()?;
+
         let pre_build_start = Instant::now();
         self.scripts.execute_pre_build()?;
         let pre_build_duration = pre_build_start.elapsed().as_micros();
-- 
2.43.0


From 6287a1af011c1ccaf98d7ed02c588a9f9cf1bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 23/48] fix: remove the temporary directory of a build which
 failed or was killed

---
 stuart/src/build.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index e682a93..2e82c50 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -4,9 +4,11 @@ use crate::error::StuartError;
 use crate::scripts::Scripts;
 use crate::{config, plugins};
 
-use stuart_core::{Config, Node, Stuart, TracebackError};
+use stuart_core::error::FsError;
+use stuart_core::{Config, Error, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
+use std::io::ErrorKind;
 use std::path::PathBuf;
 use std::time::Instant;
 
@@ -157,9 +159,29 @@ impl StuartContext {
     }
 
     /// Builds the site with the given configuration.
+    ///
+    /// The temporary directory only exists during the build.
     pub fn build(&mut self) -> Result<BuildInfo, Box<dyn StuartError>> {
         self.check_output()?;
 
+        let temp = self.project_dir.join("temp");
+
+        // A build which was killed may have left its files there.
+        match remove_dir_all(&temp) {
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                return Err(Box::new(Error::Fs(FsError::Write)))
+            }
+            _ => (),
+        }
+
+        let result = self.build_with_temp();
+        remove_dir_all(&temp).ok();
+
+        result
+    }
+
+    /// Builds the site, possibly leaving the temporary directory behind.
+    fn build_with_temp(&mut self) -> Result<BuildInfo, Box<dyn StuartError>> {
         let pre_build_start = Instant::now();
         self.scripts.execute_pre_build()?;
         let pre_build_duration = pre_build_start.elapsed().as_micros();
-- 
2.43.0


From dd28800b34781e8858d9005c1f92799b2887f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 24/48] fix: fail if the static or temp directory cannot be
 examined

---
 stuart/src/build.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 2e82c50..834f1fe 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -202,7 +202,10 @@ impl StuartContext {
         for dir in ["static", "temp"] {
             let dir_path = self.project_dir.join(dir);
 
-            if dir_path.exists() {
+            if dir_path
+                .try_exists()
+                .map_err(|_| Error::Fs(FsError::Read))?
+            {
                 let node = Node::new(dir_path, false)?;
                 self.stuart.merge_output(node)?;
             }
-- 
2.43.0


From 3d284a747b85eba84ebc18d9b7b032fa076d69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 25/48] fix: find build scripts in a fixed order, and fail if
 one cannot be examined

---
 stuart/src/build.rs   |  2 +-
 stuart/src/scripts.rs | 49 ++++++++++++++++++++++++-------------------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 834f1fe..065c162 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -72,7 +72,7 @@ impl StuartContext {
 
         let config: Config = config.into();
 
-        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..571e3be 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -1,6 +1,9 @@
 //! Provides methods for locating and executing build scripts.
 
-use std::fs::read_dir;
+use stuart_core::error::{Error, FsError};
+
+use std::fs::metadata;
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
@@ -52,28 +55,32 @@ pub enum ScriptError {
 
 impl Scripts {
     /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
-        if let Ok(dir) = read_dir(dir.as_ref()) {
-            let mut scripts = Self::default();
-
-            for entry in dir.flatten() {
-                if entry.path().is_file() {
-                    if constants::PRE_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_pre_build.push(entry.path());
-                    } else if constants::POST_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_post_build.push(entry.path());
-                    }
-                }
-            }
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, Error> {
+        let dir = dir.as_ref();
+
+        Ok(Self {
+            on_pre_build: Self::find(dir, &constants::PRE_BUILD_SCRIPT_NAMES)?,
+            on_post_build: Self::find(dir, &constants::POST_BUILD_SCRIPT_NAMES)?,
+            environment: Vec::new(),
+        })
+    }
+
+    /// Finds the scripts with the given names in the given directory, in the order of the names.
+    fn find(dir: &Path, names: &[&str]) -> Result<Vec<PathBuf>, Error> {
+        let mut scripts = Vec::new();
 
-            scripts
-        } else {
-            Self::default()
+        for name in names {
+            let path = dir.join(name);
+
+            match metadata(&path) {
+                Ok(metadata) if metadata.is_file() => scripts.push(path),
+                Ok(_) => (),
+                Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => (),
+                Err(_) => return Err(Error::Fs(FsError::Read)),
+            }
         }
+
+        Ok(scripts)
     }
 
     /// Sets the environment variables to pass to scripts.
-- 
2.43.0


From b533a05c5c6e266e523c18d7e6e68921b5382c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 26/48] fix: do not panic when a JavaScript function is called
 within a conditional

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From c2e7a585d314b2c512619655c153ef77121630ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 27/48] fix: do not panic on JavaScript values which JSON
 cannot express

---
 stuart/src/plugins/js/json.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..2935fdf 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -39,7 +39,8 @@ pub fn json_to_js<'a>(
 
 /// Converts a JavaScript object to a JSON value.
 ///
-/// Returns `None` if `value` is `undefined`.
+/// Returns `None` if `value` is `undefined` or cannot be expressed in JSON. As in JavaScript, object properties
+/// with such a value are dropped, and array elements with such a value are replaced by `null`.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
@@ -74,14 +75,14 @@ pub fn js_to_json<'a>(
             .unwrap();
         let mut array = Vec::with_capacity(length as usize);
         for i in 0..length {
-            let v8_value = v8_array.get_index(scope, i).unwrap();
+            let v8_value = v8_array.get_index(scope, i)?;
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
     }
 
-    if value.is_object() {
+    if value.is_object() && !value.is_function() {
         let v8_object = value.to_object(scope).unwrap();
         let keys = v8_object
             .get_own_property_names(scope, v8::GetPropertyNamesArgs::default())
@@ -92,9 +93,11 @@ pub fn js_to_json<'a>(
         for i in 0..length {
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
-            let v8_value = v8_object.get(scope, v8_key).unwrap();
-            let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            let v8_value = v8_object.get(scope, v8_key)?;
+
+            if let Some(value) = js_to_json(v8_value, scope) {
+                object.push((key, value));
+            }
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From fe37e02fe443799f6852bac9740b640ffbfff788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 28/48] fix: let a variable set again take its new value

---
 stuart-core/src/process/stack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/stack.rs b/stuart-core/src/process/stack.rs
index ed1ea98..313199c 100644
--- a/stuart-core/src/process/stack.rs
+++ b/stuart-core/src/process/stack.rs
@@ -25,9 +25,14 @@ impl StackFrame {
         }
     }
 
-    /// Adds a variable to the stack frame.
+    /// Adds a variable to the stack frame, replacing any variable of the frame with the same name.
     pub fn add_variable(&mut self, name: impl AsRef<str>, value: Value) {
-        self.variables.push((name.as_ref().to_string(), value));
+        let name = name.as_ref();
+
+        match self.variables.iter_mut().find(|(n, _)| n == name) {
+            Some((_, v)) => *v = value,
+            None => self.variables.push((name.to_string(), value)),
+        }
     }
 
     /// Adds a variable to the stack frame.
-- 
2.43.0


From ba951be2996f6f1405e0200f2e6a6bd3558ff355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 29/48] fix: pass JSON properties named `__proto__` to
 JavaScript functions

---
 stuart/src/plugins/js/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 2935fdf..92c90d9 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -28,7 +28,8 @@ pub fn json_to_js<'a>(
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    // Unlike `set`, this also works for `__proto__`.
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From ac0480d24d08ca6e50a256feee2015a468ec78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 30/48] fix: reject a JavaScript plugin whose function is not a
 function instead of panicking

---
 stuart/src/plugins/js/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..55d8dcc 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -129,6 +129,7 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 let key = v8::String::new(scope, "fn").unwrap();
                 let function_fn = function_object
                     .get(scope, key.into())
+                    .filter(|function_fn| function_fn.is_function())
                     .ok_or_else(|| format!("invalid function at index {}", i))?;
 
                 let key = v8::String::new(scope, &format!("_stuart_{}", function_name)).unwrap();
-- 
2.43.0


From b6cece4e94b7544bbacbc8f3e0dcf9fa42dbb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 31/48] fix: fail the build if a JavaScript function throws an
 exception

---
 stuart-core/src/error.rs     |  2 ++
 stuart/src/error.rs          |  2 ++
 stuart/src/plugins/js/mod.rs | 26 +++++++++++++++++++-------
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 51113fb..78945da 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -107,6 +107,8 @@ pub enum ProcessError {
     NullError(String),
     /// The file was not found.
     NotFound(String),
+    /// A function of a plugin failed with the given message.
+    PluginError(String),
 
     /// The data type of the variable was invalid.
     InvalidDataType {
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index 81100a0..007eb1d 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -291,6 +291,7 @@ impl StuartError for ProcessError {
             }
             ProcessError::NullError(name) => format!("null error: `{}`", name).display(buf),
             ProcessError::NotFound(name) => format!("not found: `{}`", name).display(buf),
+            ProcessError::PluginError(message) => format!("plugin error: {}", message).display(buf),
             ProcessError::InvalidDataType {
                 variable,
                 expected,
@@ -344,6 +345,7 @@ impl StuartError for ProcessError {
                     .to_string(),
             ),
             ProcessError::NotFound(_) => None,
+            ProcessError::PluginError(_) => None,
             ProcessError::InvalidDataType { .. } => None,
         }
     }
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 55d8dcc..411dd9f 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -209,15 +209,27 @@ impl Function for JSFunction {
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
-            if let Some(result) = function.call(scope, function_obj, &evaluated_args) {
-                if !result.is_undefined() {
-                    stuart_scope
-                        .output(result.to_rust_string_lossy(scope))
-                        .unwrap();
+            let scope = &mut v8::TryCatch::new(scope);
+
+            match function.call(scope, function_obj, &evaluated_args) {
+                Some(result) => {
+                    if !result.is_undefined() {
+                        stuart_scope
+                            .output(result.to_rust_string_lossy(scope))
+                            .unwrap();
+                    }
+
+                    Ok(())
                 }
-            }
+                None => {
+                    let message = scope
+                        .exception()
+                        .map(|exception| exception.to_rust_string_lossy(scope))
+                        .unwrap_or_default();
 
-            Ok(())
+                    Err(self_token.traceback(ProcessError::PluginError(message)))
+                }
+            }
         })
     }
 }
-- 
2.43.0


From e6da60ba5811460c9ffbad3cac44227b7fdca870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 32/48] fix: only inject the reload script into HTML files, and
 do not panic on other names

---
 stuart/src/serve/mod.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..8aaf6a2 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -170,22 +170,25 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                     let mut buf = Vec::new();
 
                     if file.read_to_end(&mut buf).is_ok() {
-                        if let Some(index) = buf.windows(7).position(|w| w == b"</body>") {
-                            let mut to_inject = Vec::with_capacity(JS.len() + 17);
-                            to_inject.extend_from_slice(b"<script>");
-                            to_inject.extend_from_slice(JS);
-                            to_inject.extend_from_slice(b"</script>");
-
-                            buf.splice(index..index, to_inject);
+                        let mime_type = path.extension().map(|extension| {
+                            MimeType::from_extension(&extension.to_string_lossy()).to_string()
+                        });
+
+                        if mime_type.as_deref() == Some("text/html") {
+                            if let Some(index) = buf.windows(7).position(|w| w == b"</body>") {
+                                let mut to_inject = Vec::with_capacity(JS.len() + 17);
+                                to_inject.extend_from_slice(b"<script>");
+                                to_inject.extend_from_slice(JS);
+                                to_inject.extend_from_slice(b"</script>");
+
+                                buf.splice(index..index, to_inject);
+                            }
                         }
 
-                        return if let Some(extension) = path.extension() {
-                            Response::new(StatusCode::OK, buf).with_header(
-                                HeaderType::ContentType,
-                                MimeType::from_extension(extension.to_str().unwrap()).to_string(),
-                            )
-                        } else {
-                            Response::new(StatusCode::OK, buf)
+                        return match mime_type {
+                            Some(mime_type) => Response::new(StatusCode::OK, buf)
+                                .with_header(HeaderType::ContentType, mime_type),
+                            None => Response::new(StatusCode::OK, buf),
                         };
                     }
                 }
-- 
2.43.0


From f4430c8a3cd0412d2b9dfeaade48eb6145904276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 33/48] fix: escape the name and the author in the manifest of
 a new project

---
 stuart/src/new.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..66a5d7d 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,13 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml::Value::from(name)).into_bytes();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = toml::Value::from(format!("{} <{}>", name, email));
+        write!(&mut manifest, "\nauthor = {}", author).unwrap();
     }
 
     manifest.push(b'\n');
-- 
2.43.0


From e7194eaf437b86d799c1b3bd85fe80cfc16b127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 34/48] fix: initialise the Git repository of a new project
 with an absolute path in its directory

---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 66a5d7d..e059ed0 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -40,7 +40,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(name).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From a742836972c16846c7d1abb23d50158e7a321cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 35/48] fix: do not panic on file events, and only ignore those
 of files which the build changes

---
 stuart/src/build.rs     | 27 +++++++++++++++++++--------
 stuart/src/serve/mod.rs | 16 ++++++++--------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 065c162..029f9da 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -9,7 +9,7 @@ use stuart_core::{Config, Error, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
 use std::io::ErrorKind;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 /// Contains information about a successful build.
@@ -122,17 +122,28 @@ impl StuartContext {
         })
     }
 
-    /// Checks that saving the site to the output directory, which replaces the whole directory,
-    ///   cannot replace any sources of the project.
-    fn check_output(&self) -> Result<(), Box<dyn StuartError>> {
-        // The directory might not exist yet.
+    /// Returns the canonical path of the output directory, which might not exist yet.
+    fn canonical_output(&self) -> Option<PathBuf> {
         let output = self.project_dir.join(&self.output);
-        let output = output.canonicalize().ok().or_else(|| {
+
+        output.canonicalize().ok().or_else(|| {
             let parent = output.parent()?.canonicalize().ok()?;
             Some(parent.join(output.file_name()?))
-        });
+        })
+    }
 
-        let output = match output {
+    /// Returns `true` if the path is that of the output directory or of anything inside it.
+    pub fn is_output(&self, path: &Path) -> bool {
+        path.starts_with(self.project_dir.join(&self.output))
+            || self
+                .canonical_output()
+                .map_or(false, |output| path.starts_with(output))
+    }
+
+    /// Checks that saving the site to the output directory, which replaces the whole directory,
+    ///   cannot replace any sources of the project.
+    fn check_output(&self) -> Result<(), Box<dyn StuartError>> {
+        let output = match self.canonical_output() {
             Some(output) => output,
             None => return Ok(()),
         };
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 8aaf6a2..4a09f93 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -19,7 +19,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -96,15 +96,18 @@ fn build_watcher(
 ) {
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // If events were lost, there is no path and anything could have changed.
+            let changed = e.path.as_deref().unwrap_or(&path);
+            let p = changed.strip_prefix(&path).unwrap_or(changed);
 
-            if p.starts_with("dist") || p.starts_with("temp") {
+            // These are changed by the build itself.
+            if ctx.is_output(changed) || p.starts_with("temp") || p == Path::new("metadata.json") {
                 continue;
             }
 
             println!();
 
-            if p.ends_with("stuart.toml") {
+            if p == Path::new("stuart.toml") {
                 log!(
                     "Detected",
                     "configuration change, please restart the server"
@@ -115,10 +118,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                e.path
-                    .unwrap()
-                    .to_string_lossy()
-                    .trim_start_matches("\\\\?\\")
+                changed.to_string_lossy().trim_start_matches("\\\\?\\")
             );
 
             if let Err(e) = ctx.build() {
-- 
2.43.0


From a4cb9b78c4f7cd636cb1b776435d1734cd7a6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 36/48] fix: accept output directory paths like `dist/.`,
 instead of failing after deleting the directory

---
 stuart/src/build.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 029f9da..d1a5517 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -122,9 +122,20 @@ impl StuartContext {
         })
     }
 
+    /// Returns the path of the output directory, which does not lead through the directory itself.
+    fn output_dir(&self) -> PathBuf {
+        let output: PathBuf = self.project_dir.join(&self.output).components().collect();
+        let parent = output.parent().and_then(|p| p.canonicalize().ok());
+
+        match (parent, output.file_name()) {
+            (Some(parent), Some(name)) => parent.join(name),
+            _ => output,
+        }
+    }
+
     /// Returns the canonical path of the output directory, which might not exist yet.
     fn canonical_output(&self) -> Option<PathBuf> {
-        let output = self.project_dir.join(&self.output);
+        let output = self.output_dir();
 
         output.canonicalize().ok().or_else(|| {
             let parent = output.parent()?.canonicalize().ok()?;
@@ -134,7 +145,7 @@ impl StuartContext {
 
     /// Returns `true` if the path is that of the output directory or of anything inside it.
     pub fn is_output(&self, path: &Path) -> bool {
-        path.starts_with(self.project_dir.join(&self.output))
+        path.starts_with(self.output_dir())
             || self
                 .canonical_output()
                 .map_or(false, |output| path.starts_with(output))
@@ -225,7 +236,7 @@ impl StuartContext {
         remove_dir_all(self.project_dir.join("temp")).ok();
 
         let save_start = Instant::now();
-        self.stuart.save(self.project_dir.join(&self.output))?;
+        self.stuart.save(self.output_dir())?;
         let save_duration = save_start.elapsed().as_micros();
 
         if self.stuart.config.save_metadata {
-- 
2.43.0


From 55d10441aff0d0c459baab07164b8cbc3b822b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 37/48] fix: do not treat plugin functions with the name of a
 block function as one

---
 stuart-core/src/functions/mod.rs              | 28 +++++++++++++------
 stuart-core/src/functions/parsers/begin.rs    |  6 +++-
 stuart-core/src/functions/parsers/else.rs     |  6 +++-
 stuart-core/src/functions/parsers/end.rs      |  6 +++-
 stuart-core/src/functions/parsers/for.rs      | 14 ++++++----
 stuart-core/src/functions/parsers/if.rs       | 21 +++++++-------
 .../src/functions/parsers/ifdefined.rs        | 25 +++++++++--------
 7 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 246153a..8a71aed 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -78,10 +78,30 @@ pub trait Function: Debug {
     /// Returns the name of the function.
     fn name(&self) -> &str;
 
+    /// Returns the part that the function plays in the structure of blocks.
+    fn block_role(&self) -> BlockRole {
+        BlockRole::None
+    }
+
     /// Executes the function in the given scope.
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>>;
 }
 
+/// Represents the part that a function plays in the structure of blocks.
+///
+/// Plugin functions play none, even if they have the name of a built-in function which does.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum BlockRole {
+    /// The function neither opens nor closes a block.
+    None,
+    /// The function opens a block, such as `begin` or `for`.
+    Open,
+    /// The function separates the branches of a conditional block.
+    Else,
+    /// The function closes a block.
+    Close,
+}
+
 /// Represents an input into a function.
 #[derive(Debug, Clone)]
 enum Input {
@@ -175,14 +195,6 @@ macro_rules! quiet_assert {
     };
 }
 
-/// Returns true if the function with the given name opens a block which is closed by `end`.
-pub(crate) fn opens_block(name: &str) -> bool {
-    matches!(
-        name,
-        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
-    )
-}
-
 /// Returns true if the string is an identifier of a function.
 #[inline]
 pub fn is_ident(s: &str) -> bool {
diff --git a/stuart-core/src/functions/parsers/begin.rs b/stuart-core/src/functions/parsers/begin.rs
index 43a5007..37eb67f 100644
--- a/stuart-core/src/functions/parsers/begin.rs
+++ b/stuart-core/src/functions/parsers/begin.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{BlockRole, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -42,6 +42,10 @@ impl Function for BeginFunction {
         "begin"
     }
 
+    fn block_role(&self) -> BlockRole {
+        BlockRole::Open
+    }
+
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         scope
             .stack
diff --git a/stuart-core/src/functions/parsers/else.rs b/stuart-core/src/functions/parsers/else.rs
index 8936ea6..832c939 100644
--- a/stuart-core/src/functions/parsers/else.rs
+++ b/stuart-core/src/functions/parsers/else.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{BlockRole, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::{ProcessError, Scope};
 use crate::{quiet_assert, TracebackError};
@@ -27,6 +27,10 @@ impl Function for ElseFunction {
         "else"
     }
 
+    fn block_role(&self) -> BlockRole {
+        BlockRole::Else
+    }
+
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         let self_token = scope.tokens.current().unwrap().clone();
 
diff --git a/stuart-core/src/functions/parsers/end.rs b/stuart-core/src/functions/parsers/end.rs
index ba3fdf4..b9e1d74 100644
--- a/stuart-core/src/functions/parsers/end.rs
+++ b/stuart-core/src/functions/parsers/end.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{BlockRole, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::{ProcessError, Scope};
 use crate::{quiet_assert, TracebackError};
@@ -40,6 +40,10 @@ impl Function for EndFunction {
         "end"
     }
 
+    fn block_role(&self) -> BlockRole {
+        BlockRole::Close
+    }
+
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         let self_token = scope.tokens.current().unwrap().clone();
 
diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index ebfc856..019759f 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{opens_block, Function, FunctionParser};
+use crate::functions::{BlockRole, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -131,6 +131,10 @@ impl Function for ForFunction {
         "for"
     }
 
+    fn block_role(&self) -> BlockRole {
+        BlockRole::Open
+    }
+
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         let waypoint = scope.tokens.waypoint();
         let self_token = scope.tokens.current().unwrap().clone();
@@ -243,10 +247,10 @@ impl Function for ForFunction {
                     .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
 
                 if let Some(function) = token.as_function() {
-                    if opens_block(function.name()) {
-                        depth += 1;
-                    } else if function.name() == "end" {
-                        depth -= 1;
+                    match function.block_role() {
+                        BlockRole::Open => depth += 1,
+                        BlockRole::Close => depth -= 1,
+                        BlockRole::Else | BlockRole::None => (),
                     }
                 }
             }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index 18d0b33..347694c 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -43,6 +43,10 @@ macro_rules! if_parsers {
                         stringify!($name)
                     }
 
+                    fn block_role(&self) -> $crate::functions::BlockRole {
+                        $crate::functions::BlockRole::Open
+                    }
+
                     fn execute(&self, scope: &mut $crate::process::Scope) -> Result<(), $crate::TracebackError<$crate::process::ProcessError>> {
                         let self_token = scope.tokens.current().unwrap().clone();
 
@@ -75,25 +79,22 @@ macro_rules! if_parsers {
                                 .next()
                                 .ok_or_else(|| self_token.traceback($crate::process::ProcessError::UnexpectedEndOfFile))?;
 
-                            let function_name = token.as_function().map(|f| f.name().to_string());
+                            let role = token.as_function().map_or($crate::functions::BlockRole::None, |f| f.block_role());
 
                             if condition
-                                || ((function_name == Some("end".to_string())
-                                    || function_name == Some("else".to_string()))
+                                || (matches!(role, $crate::functions::BlockRole::Else | $crate::functions::BlockRole::Close)
                                     && scope.stack.len() == stack_height + 1
                                     && skipped_depth == 0)
                             {
                                 token.process(scope)?;
 
-                                if function_name == Some("else".to_string()) {
+                                if role == $crate::functions::BlockRole::Else {
                                     condition = !condition;
                                 }
-                            } else if let Some(name) = function_name {
-                                if $crate::functions::opens_block(&name) {
-                                    skipped_depth += 1;
-                                } else if name == "end" {
-                                    skipped_depth -= 1;
-                                }
+                            } else if role == $crate::functions::BlockRole::Open {
+                                skipped_depth += 1;
+                            } else if role == $crate::functions::BlockRole::Close {
+                                skipped_depth -= 1;
                             }
                         }
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index ff8c432..50d040b 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{opens_block, Function, FunctionParser};
+use crate::functions::{BlockRole, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -38,6 +38,10 @@ impl Function for IfDefinedFunction {
         "ifdefined"
     }
 
+    fn block_role(&self) -> BlockRole {
+        BlockRole::Open
+    }
+
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         let self_token = scope.tokens.current().unwrap().clone();
 
@@ -60,25 +64,24 @@ impl Function for IfDefinedFunction {
                 .next()
                 .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
 
-            let function_name = token.as_function().map(|f| f.name().to_string());
+            let role = token
+                .as_function()
+                .map_or(BlockRole::None, |f| f.block_role());
 
             if defined
-                || ((function_name == Some("end".to_string())
-                    || function_name == Some("else".to_string()))
+                || (matches!(role, BlockRole::Else | BlockRole::Close)
                     && scope.stack.len() == stack_height + 1
                     && skipped_depth == 0)
             {
                 token.process(scope)?;
 
-                if function_name == Some("else".to_string()) {
+                if role == BlockRole::Else {
                     defined = !defined;
                 }
-            } else if let Some(name) = function_name {
-                if opens_block(&name) {
-                    skipped_depth += 1;
-                } else if name == "end" {
-                    skipped_depth -= 1;
-                }
+            } else if role == BlockRole::Open {
+                skipped_depth += 1;
+            } else if role == BlockRole::Close {
+                skipped_depth -= 1;
             }
         }
 
-- 
2.43.0


From 7f18fb6dcba14f9de689eda30f1789055bde4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 38/48] fix: pages whose stem is . or .. are not saved to
 another directory

With strip_extensions, a page called ..html was saved to ./index.html, and
one called ...html to ../index.html, outside its directory (at the top of
content, outside the output directory).
---
 stuart-core/src/fs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index a1b029e..76beb86 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -396,7 +396,7 @@ impl Node {
         match name.strip_suffix(".html") {
             Some(directory_name)
                 if config.strip_extensions
-                    && !directory_name.is_empty()
+                    && !matches!(directory_name, "" | "." | "..")
                     && name != "index.html" =>
             {
                 Some((Some(directory_name), "index.html"))
-- 
2.43.0


From 16daea77a75e03e53aa15c73c579af595b9f2c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 39/48] fix: report a plugin project without a package name as
 an error, instead of panicking

---
 stuart/src/plugins/source.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..6247189 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -1,5 +1,6 @@
 //! Provides functionality for finding plugins from a source string.
 
+use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
 use humphrey::Client;
@@ -33,7 +34,7 @@ pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf>
 /// Attempts to build the Cargo project at the given path, returning the path to the compiled plugin.
 ///
 /// **Note:** this function may not work correctly in the case of workspace projects.
-pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptError> {
+pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn StuartError>> {
     let manifest = root.as_ref().join("Cargo.toml");
 
     let output = Command::new("cargo")
@@ -43,7 +44,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
     if !output.status.success() {
-        return Err(ScriptError::ScriptFailure {
+        return Err(Box::new(ScriptError::ScriptFailure {
             script: format!(
                 "cargo build --release --manifest-path {}",
                 manifest.display()
@@ -51,19 +52,26 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
             exit_code: output.status.code().unwrap_or(-1),
             stdout: String::from_utf8_lossy(&output.stdout).trim().to_string(),
             stderr: String::from_utf8_lossy(&output.stderr).trim().to_string(),
-        });
+        }));
     }
 
+    let name = get_project_name(&manifest).ok_or_else(|| {
+        format!(
+            "failed to find the name of the Cargo project at `{}`",
+            manifest.display()
+        )
+    })?;
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 6e241e95a0cc9b5f6548967d3e9a3be60a2c2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 40/48] fix: find the library of plugin projects with a hyphen
 in their name or a library name

---
 stuart/src/plugins/source.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 6247189..d5a2e57 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -55,7 +55,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
         }));
     }
 
-    let name = get_project_name(&manifest).ok_or_else(|| {
+    let name = get_library_name(&manifest).ok_or_else(|| {
         format!(
             "failed to find the name of the Cargo project at `{}`",
             manifest.display()
@@ -87,6 +87,18 @@ fn get_project_name(manifest: &Path) -> Option<String> {
         .map(|s| s.to_string())
 }
 
+/// Attempts to get the name of the library which Cargo builds for the given manifest.
+fn get_library_name(manifest: &Path) -> Option<String> {
+    let contents = read_to_string(manifest).ok()?;
+    let toml: toml::Value = toml::from_str(&contents).ok()?;
+
+    toml.get("lib")
+        .and_then(|lib| lib.get("name"))
+        .and_then(|name| name.as_str())
+        .map(|s| s.to_string())
+        .or_else(|| get_project_name(manifest).map(|name| name.replace('-', "_")))
+}
+
 /// Attempt to download a plugin from the given URL.
 pub fn download_plugin(url: &str) -> Option<Vec<u8>> {
     let mut client = Client::new();
-- 
2.43.0


From 131a8c781f355e5698cb35e53ab6d88cbee2726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 41/48] fix: do not load the body of an error response as a
 plugin

---
 stuart/src/plugins/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index d5a2e57..a172124 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -3,6 +3,7 @@
 use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
+use humphrey::http::StatusCode;
 use humphrey::Client;
 
 use std::fs::{read_dir, read_to_string};
@@ -104,5 +105,6 @@ pub fn download_plugin(url: &str) -> Option<Vec<u8>> {
     let mut client = Client::new();
     let response = client.get(url).ok()?.with_redirects(true).send().ok()?;
 
-    Some(response.body)
+    // the body of an error page is not a plugin
+    (response.status_code == StatusCode::OK).then_some(response.body)
 }
-- 
2.43.0


From cef21c12baf11f55157b5bd3cbe711633b735084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 42/48] fix: clone a plugin again if the directory holds
 another repository

A fallback Git source, or a Git source which replaces another one in the
manifest, used the clone of the first one. If the directory held a download,
the repository of the project itself was pulled.
---
 stuart/src/config/git.rs  | 11 +++++++++++
 stuart/src/plugins/mod.rs |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/stuart/src/config/git.rs b/stuart/src/config/git.rs
index c653970..ff0b1ee 100644
--- a/stuart/src/config/git.rs
+++ b/stuart/src/config/git.rs
@@ -63,6 +63,17 @@ pub fn clone(url: &str, path: &str) -> bool {
         .unwrap_or(false)
 }
 
+/// Checks whether the given directory is a clone of the repository at the given URL.
+pub fn is_clone_of(path: &str, url: &str) -> bool {
+    Command::new("git")
+        .args(["-C", path, "config", "--get", "remote.origin.url"])
+        .output()
+        .map(|output| {
+            output.status.success() && String::from_utf8_lossy(&output.stdout).trim() == url
+        })
+        .unwrap_or(false)
+}
+
 /// Attempts to pull the latest changes from the remote repository into the given directory.
 ///
 /// Returns `true` if the pull was successful, `false` otherwise.
diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..05ab7d5 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -14,7 +14,7 @@ use stuart_core::plugins::{Manager, Plugin};
 use libloading::Library;
 
 use std::collections::HashMap;
-use std::fs::create_dir_all;
+use std::fs::{create_dir_all, remove_dir_all};
 use std::path::Path;
 use std::time::Instant;
 
@@ -148,6 +148,11 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
+        // The directory may hold another source of the plugin, in which case it is of no use.
+        if repo_dir.exists() && !git::is_clone_of(&repo_dir_string, src) {
+            remove_dir_all(&repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
+        }
+
         if !repo_dir.exists() {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
-- 
2.43.0


From 3b47b4205575f7fc757cb1a3908c347a803ab857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 43/48] fix: a JavaScript plugin which throws an exception
 while loading is not loaded

---
 stuart/src/plugins/js/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 411dd9f..a1c9ca0 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -76,6 +76,11 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .ok_or("failed to instantiate module")?;
             module.evaluate(scope).ok_or("failed to evaluate module")?;
 
+            // The result is a promise, even if the module throws an exception.
+            if module.get_status() == v8::ModuleStatus::Errored {
+                return Err("failed to evaluate module".to_string());
+            }
+
             let key = v8::String::new(scope, "default").unwrap();
             let default = module
                 .get_module_namespace()
-- 
2.43.0


From 9c0519dfd8cd044571d93bed711fc56d5f13dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 44/48] fix: notice changes made during the first build of the
 development server

---
 stuart/src/serve/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 4a09f93..2745499 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -57,6 +57,11 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 
     let mut ctx = StuartContext::init(&manifest_path, &output, "development")?;
 
+    // Changes made during the first build must not go unnoticed.
+    let (tx, rx) = channel();
+    let mut watcher = raw_watcher(tx).unwrap();
+    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
+
     log!("Started", "development server at http://localhost:6904\n");
 
     if let Err(e) = ctx.build() {
@@ -69,10 +74,6 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
         path: full_output_path,
     };
 
-    let (tx, rx) = channel();
-    let mut watcher = raw_watcher(tx).unwrap();
-    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
-
     spawn(move || {
         let app = App::new_with_config(8, state)
             .with_route("/*", serve_dir)
-- 
2.43.0


From de066a6009180fa8391fe4a847b44621b51af0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 45/48] fix: keep the progress bar and blank lines out of quiet
 mode

---
 stuart/src/logger/mod.rs      | 5 +++++
 stuart/src/logger/progress.rs | 8 +++++++-
 stuart/src/main.rs            | 4 +++-
 stuart/src/serve/mod.rs       | 4 +++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/stuart/src/logger/mod.rs b/stuart/src/logger/mod.rs
index 05073fc..f72b29d 100644
--- a/stuart/src/logger/mod.rs
+++ b/stuart/src/logger/mod.rs
@@ -53,6 +53,11 @@ impl Logger {
     }
 }
 
+/// Returns `true` if only errors are to be printed.
+pub fn is_quiet() -> bool {
+    matches!(LOGGER.get(), Some(logger) if logger.level == LogLevel::Quiet)
+}
+
 /// Logs a message.
 ///
 /// The first argument is the verb, which appears in green text.
diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..390ac47 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use super::is_quiet;
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -25,6 +27,10 @@ impl Progress {
 
     /// Prints the current state of the progress bar.
     pub fn print(&self) {
+        if is_quiet() {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -64,7 +70,7 @@ impl Iterator for Progress {
         self.current += 1;
         self.print();
 
-        if self.current == self.total {
+        if self.current == self.total && !is_quiet() {
             println!();
         }
 
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..7592570 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -182,7 +182,9 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    if !logger::is_quiet() {
+        println!();
+    }
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 2745499..3efa5de 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -106,7 +106,9 @@ fn build_watcher(
                 continue;
             }
 
-            println!();
+            if !crate::logger::is_quiet() {
+                println!();
+            }
 
             if p == Path::new("stuart.toml") {
                 log!(
-- 
2.43.0


From 4b73322646d863f4c6bfcf02e9404db8a0355d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 46/48] fix: a directory with the name of a template does not
 hide the templates of the directories above

---
 stuart-core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 3dc7853..5af4143 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -261,7 +261,7 @@ impl<'a> Environment<'a> {
     fn update_from_children(&self, children: &'a [Node]) -> Self {
         let mut env = *self;
 
-        for child in children {
+        for child in children.iter().filter(|child| child.is_file()) {
             match child.name() {
                 "root.html" => {
                     env.root = match child.parsed_contents() {
-- 
2.43.0


From c28198ecd30a6936a27220547db8561c76925aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 47/48] fix: Cargo plugins are compiled to the directory in
 which they are looked for

---
 stuart/src/plugins/source.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index a172124..4dc0cdb 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -41,6 +41,9 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
     let output = Command::new("cargo")
         .args(["build", "--release", "--manifest-path"])
         .arg(&manifest)
+        // Where the library is looked for, whatever the user's configuration of Cargo is.
+        .arg("--target-dir")
+        .arg(root.as_ref().join("target"))
         .output()
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
-- 
2.43.0


From 65c0bc09b9c360e3fdf1460499b2fcfd54676e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 48/48] fix: Git works on the repository of the plugin or new
 project, not on that of a hook which runs the command

---
 stuart/src/config/git.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/stuart/src/config/git.rs b/stuart/src/config/git.rs
index ff0b1ee..4314b34 100644
--- a/stuart/src/config/git.rs
+++ b/stuart/src/config/git.rs
@@ -32,9 +32,28 @@ pub fn get_user_email() -> Option<String> {
     }
 }
 
+/// Creates a Git command for the repository given by its arguments.
+///
+/// Git hooks have the repository they belong to in their environment, which would take precedence.
+fn command() -> Command {
+    let mut command = Command::new("git");
+
+    for variable in [
+        "GIT_DIR",
+        "GIT_WORK_TREE",
+        "GIT_INDEX_FILE",
+        "GIT_OBJECT_DIRECTORY",
+        "GIT_COMMON_DIR",
+    ] {
+        command.env_remove(variable);
+    }
+
+    command
+}
+
 /// Initialises a new Git repository in the given directory.
 pub fn init_repository(path: &str) -> bool {
-    Command::new("git")
+    command()
         .arg("init")
         .arg(path)
         .output()
@@ -45,7 +64,7 @@ pub fn init_repository(path: &str) -> bool {
 
 /// Checks whether a remote repository exists at the given URL.
 pub fn exists(url: &str) -> bool {
-    Command::new("git")
+    command()
         .args(["ls-remote", url])
         .output()
         .map(|output| output.status.success())
@@ -56,7 +75,7 @@ pub fn exists(url: &str) -> bool {
 ///
 /// Returns `true` if the clone was successful, `false` otherwise.
 pub fn clone(url: &str, path: &str) -> bool {
-    Command::new("git")
+    command()
         .args(["clone", url, path, "--depth", "1"])
         .output()
         .map(|output| output.status.success())
@@ -65,7 +84,7 @@ pub fn clone(url: &str, path: &str) -> bool {
 
 /// Checks whether the given directory is a clone of the repository at the given URL.
 pub fn is_clone_of(path: &str, url: &str) -> bool {
-    Command::new("git")
+    command()
         .args(["-C", path, "config", "--get", "remote.origin.url"])
         .output()
         .map(|output| {
@@ -78,7 +97,7 @@ pub fn is_clone_of(path: &str, url: &str) -> bool {
 ///
 /// Returns `true` if the pull was successful, `false` otherwise.
 pub fn pull(path: &str) -> bool {
-    Command::new("git")
+    command()
         .args(["-C", path, "pull"])
         .output()
         .map(|output| output.status.success())
-- 
2.43.0

