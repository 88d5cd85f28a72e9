From e4a550908c3d5dcc654d6a7ecbc7c417a987664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 01/65] fix: apply incremental document changes in order, and
 all or nothing

Changes of one notification are expressed against the text left by the
previous change; resolving all of them against the original text made the
server's copy diverge. A change without a range replaces the entire document.
A change that can't be applied no longer leaves a half-updated document.
---
 crates/jarl-lsp/src/document.rs | 52 +++++++++++++--------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..6f31e11 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,22 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
-
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+        // Each change is expressed against the state left by the previous one, so
+        // they have to be applied in order. Work on a copy so that a change that
+        // can't be applied leaves the document as it was.
+        let mut updated = self.clone();
+
+        for (i, change) in changes.into_iter().enumerate() {
+            // No range means that the text is the new content of the entire document.
+            let Some(range) = change.range else {
+                updated.line_starts = Self::compute_line_starts(&change.text);
+                updated.content = change.text;
+                continue;
+            };
+
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +157,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +165,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From 9a2041862cc5eb053760bb9b20433e3bfab106d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 02/65] fix: resolve document positions per the LSP
 specification, without panics

A character beyond the end of a line denotes the end of the line, in every
encoding, and the end of the line is before CRLF too. A UTF-8 position or a
byte offset inside a character is an error rather than a panic.
---
 crates/jarl-lsp/src/document.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 6f31e11..d81f0a5 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -197,13 +197,21 @@ impl TextDocument {
             self.content.len()
         };
 
+        // The line ending isn't part of the line: a character beyond the end of
+        // the line means the end of the line, i.e. before "\n" or "\r\n".
         let line_content = &self.content[line_start..line_end];
+        let line_content = if line + 1 < self.line_starts.len() {
+            line_content.strip_suffix('\r').unwrap_or(line_content)
+        } else {
+            line_content
+        };
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                let character = character.min(line_content.len());
+                if !line_content.is_char_boundary(character) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
+                        "Character {} is in the middle of a UTF-8 sequence on line {}",
                         character,
                         line
                     ));
@@ -254,6 +262,9 @@ impl TextDocument {
         if offset > self.content.len() {
             return Err(anyhow!("Offset {} is out of bounds", offset));
         }
+        if !self.content.is_char_boundary(offset) {
+            return Err(anyhow!("Offset {} is in the middle of a character", offset));
+        }
 
         // Binary search to find the line
         let line = match self.line_starts.binary_search(&offset) {
-- 
2.43.0


From 08c32f86a2b9f062918714acced46b6bee4ef09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 03/65] fix: don't panic on a DESCRIPTION whose R dependency
 has no version

"R (>= 4.3.0" reached an unreachable!() and "R )(" sliced out of range. Also
recognise "R(>= 4.3.0)" without a space, and don't take an upper bound such as
"R (<= 4.3.0)" for a minimum version (it then failed to parse).
---
 crates/jarl-core/src/description.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..5df1652 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -27,7 +27,7 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
+                    .filter(|s| is_r_dependency(s))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -41,11 +41,20 @@ impl Description {
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
     if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
+        && let Some(len) = dep[start..].find(')')
     {
-        let version_part = &dep[start + 1..end];
-        // Remove >= operator and extract just the version number
-        let version = version_part.replace(">=", "").trim().to_string();
+        let version_part = dep[start + 1..start + len].trim();
+
+        // "R (<= 4.3.0)" or "R (!= 4.3.0)" don't say anything about the minimum version
+        if version_part.starts_with(['<', '!']) {
+            return None;
+        }
+
+        // Remove operator and extract just the version number
+        let version = version_part
+            .trim_start_matches(['>', '='])
+            .trim()
+            .to_string();
 
         if !version.is_empty() {
             return Some(version);
@@ -53,7 +62,13 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     }
 
     // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    None
+}
+
+/// Is this an R dependency with a version, such as "R (>= 4.3.0)" or "R(>= 4.3.0)"?
+fn is_r_dependency(dep: &str) -> bool {
+    dep.strip_prefix('R')
+        .is_some_and(|rest| rest.trim_start().starts_with('('))
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 638e996bf0e7c3f38a61ee355779294e2983dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 04/65] fix: don't lint chunks of other engines as R code

The opening fence matched every engine whose name starts with "r" or "R", such
as {rust}, {ruby} or {Rcpp}.
---
 crates/jarl-core/src/rmd/extraction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rmd/extraction.rs b/crates/jarl-core/src/rmd/extraction.rs
index 85da990..3d8506a 100644
--- a/crates/jarl-core/src/rmd/extraction.rs
+++ b/crates/jarl-core/src/rmd/extraction.rs
@@ -6,11 +6,12 @@ use std::sync::LazyLock;
 /// Matches the opening fence of an executable R code chunk.
 ///
 /// Captures group 1: the backtick sequence (e.g. "```").
-/// Accepts `{r}`, `{r label}`, `{r, options}`, etc.
+/// Accepts `{r}`, `{r label}`, `{r, options}`, etc., but not other engines whose
+/// name starts with "r" (`{rust}`, `{Rcpp}`, etc.).
 /// Leading spaces or tabs are allowed to support indented chunks (e.g. inside
 /// list items).
 static OPEN_FENCE: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());
+    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR](?:[^}0-9A-Za-z_][^}]*)?\}").unwrap());
 
 /// An R code chunk extracted from an Rmd/Qmd document.
 #[derive(Debug)]
-- 
2.43.0


From 09de0f6b9aff27fae4d6b0ec3e680a5cd4025198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 05/65] fix: browser and empty_assignment have no fix

Their diagnostics never carry one, but the rules were declared as having a safe
fix, so that --fix-only kept them and their diagnostics counted as fixable. Bring
the published rule table in line with the rules.
---
 crates/jarl-core/src/rule_set.rs | 4 ++--
 docs/rules.qmd                   | 6 +++---
 docs/using-jarl.md               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/rule_set.rs b/crates/jarl-core/src/rule_set.rs
index 3c8f479..26cdd93 100644
--- a/crates/jarl-core/src/rule_set.rs
+++ b/crates/jarl-core/src/rule_set.rs
@@ -266,7 +266,7 @@ declare_rules! {
         name: "browser",
         categories: [Corr],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     ClassEquals => {
@@ -315,7 +315,7 @@ declare_rules! {
         name: "empty_assignment",
         categories: [Read],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     EqualsNa => {
diff --git a/docs/rules.qmd b/docs/rules.qmd
index 3e680df..b4ecbe0 100644
--- a/docs/rules.qmd
+++ b/docs/rules.qmd
@@ -89,11 +89,12 @@ dat <- as.data.frame(
     c("misplaced_file_suppression", "comments", "❌", ""),
     c("misplaced_suppression", "comments", "❌", ""),
     c("numeric_leading_zero", "readability", "✅", ""),
+    c("outdated_suppression", "comments", "❌", ""),
     c("outer_negation", "performance, readability", "✅", ""),
     c("redundant_equals", "readability", "✅", ""),
     c("redundant_ifelse", "correctness, performance, readability", "✅", ""),
     c("repeat", "readability", "✅", ""),
-    c("sample_int", "readability", "✅", ""),
+    c("sample_int", "readability", "✅", "Disabled by default"),
     c("seq", "suspicious", "✅", ""),
     c("seq2", "suspicious", "✅", ""),
     c("sort", "performance, readability", "✅", ""),
@@ -106,8 +107,7 @@ dat <- as.data.frame(
     c("unmatched_range_suppression", "comments", "❌", ""),
     c("unnecessary_nesting", "readability", "✅", "Disabled by default"),
     c("unreachable_code", "readability, suspicious", "❌", ""),
-    c("unused_function", "correctness", "❌", ""),
-    c("unused_suppression", "comments", "❌", ""),
+    c("unused_function", "correctness", "❌", "Disabled by default"),
     c("vector_logic", "performance", "❌", ""),
     c("which_grepl", "performance, readability", "✅", "")
   )
diff --git a/docs/using-jarl.md b/docs/using-jarl.md
index 040dfc2..c7483b3 100644
--- a/docs/using-jarl.md
+++ b/docs/using-jarl.md
@@ -260,7 +260,7 @@ The checks on suppression comments are listed below:
   }
   ```
 
-- `unused_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
+- `outdated_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
   ```r
   # jarl-ignore any_is_na: <reason>
   x <- 1 + 1
-- 
2.43.0


From 12f1ea7357eafcd4e7fc8ab8b386b25ced7a3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 06/65] fix: don't keep a request pending when it could not be
 sent

---
 crates/jarl-lsp/src/client.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-lsp/src/client.rs b/crates/jarl-lsp/src/client.rs
index 15faa48..7473fc8 100644
--- a/crates/jarl-lsp/src/client.rs
+++ b/crates/jarl-lsp/src/client.rs
@@ -72,8 +72,13 @@ impl Client {
         R::Result: serde::de::DeserializeOwned,
     {
         let id = self.next_request_id();
+        let request = Request {
+            id: id.clone(),
+            method: R::METHOD.to_string(),
+            params: serde_json::to_value(params)?,
+        };
 
-        // Register the pending request
+        // Register the pending request before sending it: the response may arrive at once
         {
             let mut pending = self.pending_requests.lock().unwrap();
             pending.insert(
@@ -85,13 +90,11 @@ impl Client {
             );
         }
 
-        let request = Request {
-            id: id.clone(),
-            method: R::METHOD.to_string(),
-            params: serde_json::to_value(params)?,
-        };
-
-        self.sender.send(Message::Request(request))?;
+        // A request that wasn't sent will never be answered
+        if let Err(error) = self.sender.send(Message::Request(request)) {
+            self.pending_requests.lock().unwrap().remove(&id);
+            return Err(error.into());
+        }
 
         // In a real implementation, you'd store the handler and call it when
         // the response comes back. For this barebones version, we just log.
-- 
2.43.0


From 29eb5b45dadce25cb7d39cc028b8c6849a0c3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 07/65] fix: apply fixes at byte offsets and never inside a
 replaced range

---
 crates/jarl-core/src/fix.rs | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..10f734c 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -27,39 +27,25 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         .map(|diagnostic| &diagnostic.fix)
         .collect::<Vec<_>>();
 
-    let old_content = contents;
-    let mut new_content = old_content.to_string();
+    let mut new_content = String::with_capacity(contents.len());
+    // End of the last applied fix. Like the ranges of the fixes, this is a byte
+    // offset in the original contents.
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
-    let mut new_length = old_length;
-
     for fix in fixes {
-        let mut start: i32 = fix.start.try_into().unwrap();
-        let mut end: i32 = fix.end.try_into().unwrap();
-
-        // Adjust the range of the fix based on the changes in the contents due
-        // to previous fixes.
-        let diff_length = new_length - old_length;
-        start += diff_length;
-        end += diff_length;
-
         // We don't know how to handle these cases in a single pass yet.
-        if start < last_modified_pos {
-            if !has_skipped_fixes {
-                has_skipped_fixes = true;
-            }
+        if fix.start < last_modified_pos {
+            has_skipped_fixes = true;
             continue;
         }
 
-        let start_usize = start as usize;
-        let end_usize = end as usize;
-
-        new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_content.push_str(&contents[last_modified_pos..fix.start]);
+        new_content.push_str(&fix.content);
+        last_modified_pos = fix.end;
     }
 
+    new_content.push_str(&contents[last_modified_pos..]);
+
     (has_skipped_fixes, new_content)
 }
-- 
2.43.0


From 19418d473385434a74f525bd5628c27b30a2e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 08/65] fix: report the right line for comments after the last
 expression

---
 crates/jarl-core/src/utils.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..8173e2c 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -37,16 +37,9 @@ pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
 
 /// Find the positions of the new line characters in the given AST.
 pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
+    // The entire text of the AST is needed. The list of expressions, its first
+    // child, doesn't contain the comments that come after the last expression.
+    Ok(find_new_lines_from_content(&ast.to_string()))
 }
 
 /// Takes the start of the range of a Diagnostic and the indices for the new
-- 
2.43.0


From 43b3d5524eff84a2e09b6fc40d31496eb96ca0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 09/65] fix: check the objects and functions of calls, subsets
 and extractions

---
 crates/jarl-core/src/analyze/expression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..80f4e7d 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -41,9 +41,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RCall(children) => {
             analyze::call::call(children, checker)?;
 
-            if let Some(ns_expr) = children.function()?.as_r_namespace_expression() {
-                analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
-            }
+            check_expression(&children.function()?, checker)?;
 
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg.unwrap().as_fields().value {
@@ -51,6 +49,9 @@ pub(crate) fn check_expression(
                 }
             }
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_expression(&children.left()?, checker)?;
+        }
         AnyRExpression::RForStatement(children) => {
             analyze::for_loop::for_loop(children, checker)?;
             let RForStatementFields { variable, sequence, body, .. } = children.as_fields();
@@ -101,6 +102,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
 
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -108,6 +110,7 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
-- 
2.43.0


From bf3243dcd9f74fda04583c1a4d347d282962cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 10/65] fix: don't stop at calls whose function has no name

---
 .../base/duplicated_arguments/duplicated_arguments.rs      | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..5bc9e88 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -3,7 +3,6 @@ use std::collections::{HashMap, HashSet};
 use crate::checker::Checker;
 use crate::diagnostic::*;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +49,7 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
-- 
2.43.0


From c3e2db68ff53ae57b843629842a27b3c25569da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 11/65] fix: don't destroy comments when others surround the
 fixed code

---
 .../src/lints/base/assignment/assignment.rs     |  8 +++++++-
 crates/jarl-core/src/utils.rs                   | 17 ++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..398f604 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::utils::range_contains_comments;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -100,6 +101,10 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    let between_operands = TextRange::new(
+        lhs.text_trimmed_range().end(),
+        rhs.text_trimmed_range().start(),
+    );
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +113,8 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            // Comments in the operands are kept by the fix.
+            to_skip: range_contains_comments(ast.syntax(), between_operands),
         },
     );
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 8173e2c..4ca8378 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,8 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
+use biome_rowan::TextRange;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -395,7 +397,16 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    range_contains_comments(node, node.text_trimmed_range())
+}
+
+/// Checks if there is a comment of a syntax node in a certain range.
+pub fn range_contains_comments(node: &RSyntaxNode, range: TextRange) -> bool {
+    node.descendants_tokens(Direction::Next).any(|token| {
+        token
+            .leading_trivia()
+            .pieces()
+            .chain(token.trailing_trivia().pieces())
+            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+    })
 }
-- 
2.43.0


From d7308405a996c97401b84381aba55bf320dc2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 12/65] fix: keep the operands of coalesce fixes together

---
 .../src/lints/base/coalesce/coalesce.rs       | 43 ++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..6bc96c2 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -106,10 +106,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let alternative_str = extract_single_expression(&alternative);
-        let consequence_str = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
 
-        let inside_null_same_as_alternative = fn_body.to_trimmed_string() == alternative_str;
+        let inside_null_same_as_alternative =
+            fn_body.to_trimmed_string() == alternative.to_trimmed_string();
 
         if !inside_null_same_as_alternative {
             return Ok(None);
@@ -118,7 +119,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = format!("{} %||% {}", as_operand(fn_body), as_operand(&consequence));
         }
     }
 
@@ -152,10 +153,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let consequence_str = extract_single_expression(&consequence);
-        let alternative_str = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
 
-        let inside_null_same_as_consequence = fn_body.to_trimmed_string() == consequence_str;
+        let inside_null_same_as_consequence =
+            fn_body.to_trimmed_string() == consequence.to_trimmed_string();
 
         if !inside_null_same_as_consequence {
             return Ok(None);
@@ -164,7 +166,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = format!("{} %||% {}", as_operand(fn_body), as_operand(&alternative));
         }
     }
 
@@ -202,16 +204,35 @@ fn has_multiple_expressions(input: &AnyRExpression) -> bool {
 }
 
 // Extract single expression from braced expressions, or return the expression as-is
-fn extract_single_expression(input: &AnyRExpression) -> String {
+fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     if let Some(braced) = input.as_r_braced_expressions() {
         let expressions: Vec<_> = braced.expressions().into_iter().collect();
         if expressions.len() == 1 {
             // Single expression in braces, extract it
             if let Some(expr) = expressions.first() {
-                return expr.to_trimmed_string();
+                return expr.clone();
             }
         }
     }
 
-    input.to_trimmed_string()
+    input.clone()
+}
+
+// Text of an expression that becomes an operand of `%||%`. It needs parentheses
+// if its own operator doesn't bind more tightly than `%||%`.
+fn as_operand(input: &AnyRExpression) -> String {
+    let operator = match input {
+        AnyRExpression::RBinaryExpression(x) => x.operator(),
+        AnyRExpression::RUnaryExpression(x) => x.operator(),
+        _ => return input.to_trimmed_string(),
+    };
+    let is_unary = input.as_r_unary_expression().is_some();
+
+    match operator.map(|x| x.kind()) {
+        Ok(RSyntaxKind::COLON | RSyntaxKind::EXPONENTIATE | RSyntaxKind::EXPONENTIATE2) => {
+            input.to_trimmed_string()
+        }
+        Ok(RSyntaxKind::PLUS | RSyntaxKind::MINUS) if is_unary => input.to_trimmed_string(),
+        _ => format!("({})", input.to_trimmed_string()),
+    }
 }
-- 
2.43.0


From 17680403157230ab2a58aa5ba75f27d8c975a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 13/65] fix: parenthesize fixes that the code around them would
 tear apart

---
 crates/jarl-core/src/check.rs     |  2 +
 crates/jarl-core/src/utils_ast.rs | 81 ++++++++++++++++++++++++++++++-
 2 files changed, 82 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..0cb29d3 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -20,6 +20,7 @@ use crate::config::Config;
 use crate::diagnostic::*;
 use crate::fix::*;
 use crate::utils::*;
+use crate::utils_ast::parenthesize_fix;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     let pkg = compute_package_analysis(&config.paths, &config);
@@ -207,6 +208,7 @@ pub fn get_checks(
             if x.fix.to_skip {
                 x.fix = Fix::empty();
             }
+            x.fix = parenthesize_fix(x.fix, syntax);
             x
         })
         .collect();
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..f1530c7 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -1,7 +1,9 @@
 //! Extension traits for AST nodes providing ergonomic helper methods.
 
+use crate::diagnostic::Fix;
+use air_r_parser::RParserOptions;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, NodeOrToken, TextRange, TextSize};
 
 /// Extension trait for R AST nodes providing common parent and sibling checks.
 pub trait AstNodeExt: AstNode<Language = RLanguage> {
@@ -89,3 +91,80 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
 
 // Blanket implementation for all R AST node types
 impl<T> AstNodeExt for T where T: AstNode<Language = RLanguage> {}
+
+/// Wraps the content of a fix in parentheses if it would otherwise be torn
+/// apart by the code around it, e.g. because the fix has an operator that binds
+/// less tightly than the operator next to it:
+///
+/// `!any(x) == y` -> `!` is not only applied to `any(x)`.
+pub fn parenthesize_fix(mut fix: Fix, root: &RSyntaxNode) -> Fix {
+    if !fix.content.is_empty() && !stands_alone(&fix, root) {
+        fix.content = format!("({})", fix.content);
+    }
+    fix
+}
+
+/// Whether the content of a fix is a single expression once it has replaced
+/// the original expression.
+fn stands_alone(fix: &Fix, root: &RSyntaxNode) -> bool {
+    let range = to_text_range(fix.start, fix.end);
+    let Some(original) = expression_at(root, range) else {
+        return true;
+    };
+
+    // The code that could interfere with the fix can't go beyond this node.
+    let Some(around) = original.ancestors().find(|x| {
+        x.parent().is_none_or(|parent| {
+            matches!(
+                parent.kind(),
+                RSyntaxKind::R_EXPRESSION_LIST
+                    | RSyntaxKind::R_ARGUMENT_LIST
+                    | RSyntaxKind::R_PARENTHESIZED_EXPRESSION
+            )
+        })
+    }) else {
+        return true;
+    };
+    // Arguments must be in a call, otherwise named arguments would be mistaken
+    // for assignments.
+    let (prefix, suffix) = if around.kind() == RSyntaxKind::R_ARGUMENT {
+        ("f(", ")")
+    } else {
+        ("", "")
+    };
+
+    let text = around.text_trimmed().to_string();
+    let offset: usize = around.text_trimmed_range().start().into();
+    let new_text = format!(
+        "{prefix}{}{}{}{suffix}",
+        &text[..fix.start - offset],
+        fix.content,
+        &text[fix.end - offset..]
+    );
+    let parsed = air_r_parser::parse(&new_text, RParserOptions::default());
+    if parsed.has_error() {
+        return false;
+    }
+
+    let start = prefix.len() + fix.start - offset;
+    let range = to_text_range(start, start + fix.content.len());
+    expression_at(&parsed.syntax(), range).is_some()
+}
+
+/// Find the expression that occupies exactly a certain range.
+fn expression_at(root: &RSyntaxNode, range: TextRange) -> Option<RSyntaxNode> {
+    if !root.text_range().contains_range(range) {
+        return None;
+    }
+    let innermost = match root.covering_element(range) {
+        NodeOrToken::Node(node) => node,
+        NodeOrToken::Token(token) => token.parent()?,
+    };
+    innermost
+        .ancestors()
+        .find(|x| x.text_trimmed_range() == range && AnyRExpression::can_cast(x.kind()))
+}
+
+fn to_text_range(start: usize, end: usize) -> TextRange {
+    TextRange::new(TextSize::from(start as u32), TextSize::from(end as u32))
+}
-- 
2.43.0


From 4efef7526d42143186c857a84a096ca852857187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 14/65] fix: keep applying fixes until there is nothing left to
 fix

---
 crates/jarl-core/src/check.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 0cb29d3..640e339 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -90,27 +90,22 @@ pub fn lint_fix(
 
     let path = relativize_path(path);
 
-    let mut has_skipped_fixes = true;
-    let mut checks: Vec<Diagnostic>;
-
+    // Fixing some violations can reveal new ones, and overlapping fixes can't be
+    // applied at the same time, so this continues until there is nothing to fix.
     loop {
         let contents = fs::read_to_string(Path::new(&path))
             .with_context(|| format!("Failed to read file: {path}",))?;
 
-        checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
+        let checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
             .with_context(|| format!("Failed to get checks for file: {path}",))?;
 
-        if !has_skipped_fixes {
-            break;
+        let (_, fixed_text) = apply_fixes(&checks, &contents);
+        if fixed_text == contents {
+            return Ok(checks);
         }
 
-        let (new_has_skipped_fixes, fixed_text) = apply_fixes(&checks, &contents);
-        has_skipped_fixes = new_has_skipped_fixes;
-
         fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
     }
-
-    Ok(checks)
 }
 
 // Takes the R code as a string, parses it, and obtains a (possibly empty)
-- 
2.43.0


From 083baa4ee3c472b81a2c8c3deaaff9aa2a0945cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 15/65] fix: --fix-only implies --fix and doesn't include
 unsafe fixes

---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..f1435dc 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -106,9 +106,12 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
+    // Using --fix-only implies using --fix.
+    let apply_fixes = check_config.fix || check_config.fix_only;
+
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    let rules_to_apply = match (apply_fixes, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +129,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +150,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From a3522a79f245e020a6a4db8bab6d8cca467970d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 16/65] fix: check version control and configs of all files
 before fixing any

---
 crates/jarl-core/src/check.rs     | 29 ++++++++++++++++++++++-------
 crates/jarl/src/commands/check.rs | 12 +++++++-----
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 640e339..8ec21d0 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -23,20 +23,35 @@ use crate::utils::*;
 use crate::utils_ast::parenthesize_fix;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    check_all(vec![config])
+}
 
+/// Same as `check()` for several groups of files, each with its own config.
+pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
     // user to deal with that before applying any fixes.
-    if (config.apply_fixes || config.apply_unsafe_fixes) && !config.paths.is_empty() {
-        let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
-        if let Err(e) = check_version_control(&path_strings, &config) {
-            let first_path = path_strings.first().unwrap().clone();
-            return vec![(first_path, Err(e))];
-        }
+    //
+    // This comes before checking any group because the fixes of one group would
+    // be uncommitted changes for the next one.
+    let path_strings: Vec<String> = configs
+        .iter()
+        .filter(|config| config.apply_fixes || config.apply_unsafe_fixes)
+        .flat_map(|config| config.paths.iter().map(relativize_path))
+        .collect();
+    if let Some(first_path) = path_strings.first()
+        && let Err(e) = check_version_control(&path_strings, &configs[0])
+    {
+        return vec![(first_path.clone(), Err(e))];
     }
 
+    configs.into_iter().flat_map(check_config).collect()
+}
+
+fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
+    let pkg = compute_package_analysis(&config.paths, &config);
+
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..3247482 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -16,7 +16,6 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -95,7 +94,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Group paths by their closest resolved config directory, so each file is
     // checked with the settings from the nearest jarl.toml.
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
@@ -103,16 +102,19 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    // Nothing must be fixed if one of the configs is invalid, so they are all
+    // built before checking any group.
+    let mut configs = Vec::new();
     for (dir_key, group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
 
+    let file_results = jarl_core::check::check_all(configs);
+
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
-- 
2.43.0


From c8a66f2a61306ffa3f72f5d00e0d09099ca64255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 17/65] fix: report package-level violations where they are
 after applying fixes

---
 crates/jarl-core/src/check.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 8ec21d0..77ab87f 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -56,11 +56,31 @@ fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
 
+    let results: Vec<_> = config
+        .paths
+        .par_iter()
+        .map(|file| check_path(file, Arc::clone(&config), Arc::clone(&pkg)))
+        .collect();
+
+    // Applying fixes moves the code, so the diagnostics that come from the
+    // package analysis have to be located again.
+    let has_pkg_diagnostics =
+        !pkg.duplicate_assignments.is_empty() || !pkg.unused_functions.is_empty();
+    let pkg = if has_pkg_diagnostics && (config.apply_fixes || config.apply_unsafe_fixes) {
+        Some(Arc::new(compute_package_analysis(&config.paths, &config)))
+    } else {
+        None
+    };
+
     config
         .paths
         .par_iter()
-        .map(|file| {
-            let res = check_path(file, Arc::clone(&config), Arc::clone(&pkg));
+        .zip(results)
+        .map(|(file, res)| {
+            let res = match &pkg {
+                Some(pkg) => res.and_then(|_| lint_only(file, Arc::clone(&config), pkg.clone())),
+                None => res,
+            };
             (relativize_path(file), res)
         })
         .collect()
-- 
2.43.0


From fe1d63a4e5ce3df2faf9e5906f4ed7df6389c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 18/65] fix: read NAMESPACE files as R code in unused_function

Directives on several lines, several directives on a line, comments after a
directive, backquoted names and escaped or multiple patterns were lost, so
exported functions were reported as unused.
---
 .../base/unused_function/unused_function.rs   | 207 ++++++++----------
 1 file changed, 93 insertions(+), 114 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..0154448 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -1,9 +1,12 @@
-use biome_rowan::TextRange;
+use air_r_parser::RParserOptions;
+use air_r_syntax::{RCall, RSyntaxNode};
+use biome_rowan::{AstNode, AstSeparatedList, TextRange};
 use regex::Regex;
 use std::collections::{HashMap, HashSet};
 use std::path::{Path, PathBuf};
 
 use crate::package::{FileScope, SharedFileData};
+use crate::utils::get_function_name;
 
 /// ## What it does
 ///
@@ -55,30 +58,46 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
-    //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
-
-    // Find `directive(` in the line
-    let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
-        }
+fn directive_values(value: &RSyntaxNode) -> Vec<String> {
+    // Get the names in an argument of a NAMESPACE directive: `foo`, `"foo"`,
+    // `pkg::foo`, or several of them in `c()`.
+    if let Some(call) = RCall::cast_ref(value) {
+        return call_values(&call);
+    }
+
+    let text = value.text_trimmed().to_string();
+    let unquoted = ['"', '\'', '`']
+        .iter()
+        .find_map(|quote| text.strip_prefix(*quote)?.strip_suffix(*quote));
+    let Some(unquoted) = unquoted else {
+        return vec![text];
+    };
+
+    // Replace `\x` by `x`.
+    let mut unescaped = String::with_capacity(unquoted.len());
+    let mut chars = unquoted.chars();
+    while let Some(char) = chars.next() {
+        let char = if char == '\\' {
+            chars.next()
+        } else {
+            Some(char)
+        };
+        unescaped.extend(char);
     }
+    vec![unescaped]
+}
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+/// Get the names in all the arguments of a call.
+fn call_values(call: &RCall) -> Vec<String> {
+    let Ok(arguments) = call.arguments() else {
+        return Vec::new();
+    };
+    arguments
+        .items()
+        .iter()
+        .filter_map(|arg| arg.ok()?.value())
+        .flat_map(|value| directive_values(value.syntax()))
+        .collect()
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -86,86 +105,59 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 /// Handles both `export(name)` directives and `exportPattern(regex)` directives.
 /// For `exportPattern`, the regex is compiled and matched against `all_names`
 /// to expand it into concrete names.
+///
+/// If the file or a regex cannot be parsed, then we don't know what is exported
+/// and all names are considered to be.
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
+    let content = content.replace("\r\n", "\n");
+    let parsed = air_r_parser::parse(&content, RParserOptions::default());
+    if parsed.has_error() {
+        exports.extend(all_names.iter().map(|name| name.to_string()));
+        return exports;
+    }
 
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
+    // A NAMESPACE file contains R code, so directives may take several lines,
+    // be wrapped in `if (...)` guards, etc., e.g.
+    //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
+    // We look for calls to them anywhere in the file.
+    for call in parsed.syntax().descendants().filter_map(RCall::cast) {
+        let Ok(function) = call.function() else {
             continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
-                        }
-                    }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
-                            }
-                        }
-                    }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
-                            }
-                        }
-                    }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
+        };
+        let values = call_values(&call);
+
+        match get_function_name(function).as_str() {
+            "export" | "exportMethods" | "exportClasses" => exports.extend(values),
+            "exportPattern" => {
+                for pattern in &values {
+                    let re = Regex::new(pattern);
+                    for &name in all_names {
+                        if re.as_ref().map_or(true, |re| re.is_match(name)) {
+                            exports.insert(name.to_string());
                         }
                     }
-                    _ => {}
                 }
-                break;
             }
+            // S3method(generic, class) or
+            // S3method(pkg::generic, class) or
+            // S3method(generic, class, method_fn)
+            "S3method" => match values.as_slice() {
+                [_, _, method_fn, ..] => {
+                    exports.insert(method_fn.to_string());
+                }
+                [raw_generic, class] => {
+                    // Strip optional pkg:: or pkg::: prefix
+                    let generic = raw_generic
+                        .rsplit_once("::")
+                        .map(|(_, g)| g)
+                        .unwrap_or(raw_generic);
+                    exports.insert(format!("{generic}.{class}"));
+                }
+                _ => {}
+            },
+            _ => {}
         }
     }
 
@@ -191,26 +183,13 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
-            // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
+        // R identifiers are made of letters, digits, `.`, and `_`, but don't
+        // start with a digit.
+        let is_symbol = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
+        for word in line.split(|c: char| !is_symbol(c)) {
+            let name = word.trim_start_matches(|c: char| c.is_numeric());
+            if !name.is_empty() {
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
@@ -245,7 +224,7 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "cxx" | "h" | "hh" | "hpp" | "hxx")
     )
 }
 
-- 
2.43.0


From 5f981df360fdd58beba59b25dde3a2afa1339de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 19/65] fix: find uses of functions in all files of a package

Uses in R/unix/, R/windows/, .cc, .cxx, .hh and .hxx files, preprocessor
directives and files that aren't encoded in UTF-8 were lost.
---
 crates/jarl-core/src/package.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..700b809 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -24,7 +24,8 @@ pub(crate) enum FileScope {
     Tests,
     /// inst/tinytest/ or inst/tests/ — definitions checked only within this scope.
     Inst,
-    /// src/ — C/C++ files; no definition checking.
+    /// src/ — C/C++ files; no definition checking. Also R files in
+    /// subdirectories of R/.
     Src,
 }
 
@@ -161,7 +162,17 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let all_files: Vec<(&Path, FileScope)> = r_dir_files
         .iter()
         .map(|p| (p.as_path(), FileScope::R))
-        .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
+        .chain(excluded_r_files.iter().map(|p| {
+            // Files in subdirectories of R/ (e.g. R/unix/) may use functions
+            // defined in R/, but their own definitions are not checked.
+            let in_r_dir = p.parent().and_then(|d| d.parent());
+            let scope = if in_r_dir.is_some_and(|root| package_roots.contains(root)) {
+                FileScope::R
+            } else {
+                FileScope::Src
+            };
+            (p.as_path(), scope)
+        }))
         .chain(extra_files.iter().map(|p| {
             let scope = file_scope_from_path(p);
             (p.as_path(), scope)
@@ -173,11 +184,16 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
         .filter_map(|(path, scope)| {
-            let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
+            // Files that are not encoded in UTF-8 may still use functions.
+            let content = std::fs::read(path).ok()?;
+            let content = String::from_utf8_lossy(&content);
+            let symbol_counts = if !check_unused {
                 HashMap::new()
+            } else if has_cpp_extension(path) {
+                // In C and C++, `#` doesn't start a comment.
+                scan_symbols(&content.replace('#', " "))
+            } else {
+                scan_symbols(&content)
             };
 
             let assignments = match scope {
-- 
2.43.0


From ac9a01200543065d7cec106c46d832d66b01d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 20/65] fix: don't destroy comments between ! and all.equal()

---
 .../jarl-core/src/lints/base/all_equal/all_equal.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..3c3468a 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_function_name, get_nested_functions_content, node_contains_comments,
+    range_contains_comments,
+};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -88,11 +91,16 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let msg = "If `all.equal()` is false, it will return a string and not `FALSE`.".to_string();
     let mut range = ast.syntax().text_trimmed_range();
+    let mut contains_comments = node_contains_comments(ast.syntax());
 
     let fix_content = if ast.parent_is_bang_unary() {
         if let Some(prev) = ast.syntax().prev_sibling_or_token() {
             range = TextRange::new(prev.text_trimmed_range().start(), range.end())
         }
+        contains_comments = ast
+            .syntax()
+            .parent()
+            .is_some_and(|parent| range_contains_comments(&parent, range));
         format!("!isTRUE({})", ast.to_trimmed_text())
     } else {
         format!("isTRUE({})", ast.to_trimmed_text())
@@ -109,7 +117,7 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: fix_content,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: contains_comments,
         },
     );
 
-- 
2.43.0


From f0cbb8ba4751c958eb5698d0971f3c22b240c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 21/65] fix: keep functions and statements apart from %||% in
 coalesce fixes

---
 .../src/lints/base/coalesce/coalesce.rs       | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 6bc96c2..afddc75 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -119,7 +119,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", as_operand(fn_body), as_operand(&consequence));
+            fix_content = format!(
+                "{} %||% {}",
+                as_left_operand(fn_body),
+                as_operand(&consequence)
+            );
         }
     }
 
@@ -166,7 +170,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", as_operand(fn_body), as_operand(&alternative));
+            fix_content = format!(
+                "{} %||% {}",
+                as_left_operand(fn_body),
+                as_operand(&alternative)
+            );
         }
     }
 
@@ -218,6 +226,19 @@ fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     input.clone()
 }
 
+// Same as `as_operand()` for the left operand: the body of a function, loop, etc.
+// would also contain what comes after it.
+fn as_left_operand(input: &AnyRExpression) -> String {
+    match input {
+        AnyRExpression::RFunctionDefinition(_)
+        | AnyRExpression::RIfStatement(_)
+        | AnyRExpression::RForStatement(_)
+        | AnyRExpression::RWhileStatement(_)
+        | AnyRExpression::RRepeatStatement(_) => format!("({})", input.to_trimmed_string()),
+        _ => as_operand(input),
+    }
+}
+
 // Text of an expression that becomes an operand of `%||%`. It needs parentheses
 // if its own operator doesn't bind more tightly than `%||%`.
 fn as_operand(input: &AnyRExpression) -> String {
-- 
2.43.0


From 9eea3a134d2cf771c73876fe12775d5862c1fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 22/65] fix: don't fail on missing arguments in lengths and
 sample_int

Files with calls such as sapply(FUN = length) made the linter panic. lengths
also looked for the first argument of sapply() under the wrong name, and
dropped the other arguments.
---
 .../src/lints/base/lengths/lengths.rs         | 23 +++++++++----------
 .../src/lints/base/sample_int/sample_int.rs   |  2 +-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..75ecf1c 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,8 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use air_r_syntax::*;
-use anyhow::Context;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Lengths;
 
@@ -56,26 +55,26 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
+    let arg_x = get_arg_by_name_then_position(&arguments, "X", 1);
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_x) = arg_x.and_then(|x| x.value())
+        && let Some(arg_fun) = arg_fun.and_then(|x| x.value())
+        && arg_fun.syntax().text_trimmed() == "length"
     {
+        // `lengths()` has none of the other arguments, e.g. `simplify`.
+        let n_args = if fn_name == "vapply" { 3 } else { 2 };
+        let has_other_args = arguments.len() > n_args;
+
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: has_other_args || node_contains_comments(ast.syntax()),
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..38a23df 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -62,7 +62,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From ebebc4ce155493a77349380ae8db11cdd3805d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 23/65] fix: keep or refuse additional arguments of nested
 calls in fixes

---
 .../src/lints/base/which_grepl/which_grepl.rs | 24 +++++++-
 crates/jarl-core/src/utils.rs                 | 59 ++++++++++++++-----
 2 files changed, 67 insertions(+), 16 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs b/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
index 0e1fc15..db8c116 100644
--- a/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
+++ b/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
@@ -1,6 +1,10 @@
 use crate::diagnostic::*;
-use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name, get_function_name, get_nested_functions_content, get_unnamed_args,
+    node_contains_comments,
+};
 use air_r_syntax::*;
+use biome_rowan::AstNode;
 
 pub struct WhichGrepl;
 
@@ -47,6 +51,22 @@ pub fn which_grepl(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let (inner_content, outer_syntax) =
         unwrap_or_return_none!(get_nested_functions_content(ast, "which", "grepl")?);
 
+    // `grep()` has an additional parameter `value` between `perl` and `fixed`, so
+    // that unnamed arguments after `perl` wouldn't be passed to the same parameter.
+    let grepl_call = outer_syntax
+        .descendants()
+        .filter_map(RCall::cast)
+        .find(|x| {
+            x.function()
+                .is_ok_and(|function| get_function_name(function) == "grepl")
+        });
+    let grepl_args = unwrap_or_return_none!(grepl_call).arguments()?.items();
+    let n_args = get_unnamed_args(&grepl_args).len()
+        + ["pattern", "x", "ignore.case", "perl"]
+            .iter()
+            .filter(|name| get_arg_by_name(&grepl_args, name).is_some())
+            .count();
+
     let range = outer_syntax.text_trimmed_range();
     Ok(Some(Diagnostic::new(
         WhichGrepl,
@@ -55,7 +75,7 @@ pub fn which_grepl(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("grep({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(&outer_syntax),
+            to_skip: n_args > 4 || node_contains_comments(&outer_syntax),
         },
     )))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 4ca8378..2e94254 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -167,6 +167,29 @@ pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) ->
     get_arg_by_name_then_position(args, name, position).is_some()
 }
 
+/// Matches arguments to the parameters of a function as R does: first by name
+/// and then by position (partial matching isn't supported).
+/// Returns None if an argument doesn't match any parameter.
+pub fn match_args(args: &RArgumentList, params: &[&str]) -> Option<Vec<Option<RArgument>>> {
+    let mut matched: Vec<Option<RArgument>> = vec![None; params.len()];
+
+    for arg in get_named_args(args) {
+        let name = arg.name_clause()?.name().ok()?.to_string();
+        let position = params.iter().position(|param| *param == name.trim())?;
+        if matched[position].is_some() {
+            return None;
+        }
+        matched[position] = Some(arg);
+    }
+
+    for arg in get_unnamed_args(args) {
+        let position = matched.iter().position(|x| x.is_none())?;
+        matched[position] = Some(arg);
+    }
+
+    Some(matched)
+}
+
 /// Takes a list of arguments and removes the one that is named `name` or the
 /// one in position `pos` if no argument was found in the first step.
 pub fn drop_arg_by_name_or_position(
@@ -287,6 +310,8 @@ pub fn get_function_namespace_prefix(function: AnyRExpression) -> Option<String>
 /// - `inner_fn(content) |> outer_fn()`: `syntax_node` is the pipe expression
 /// - `content |> inner_fn() |> outer_fn()`: `syntax_node` is the pipe expression
 ///
+/// `outer_fn` can't have other arguments, except `na.rm`.
+///
 /// The returned `syntax_node` is the top-level node of the matched expression and should
 /// be used for the diagnostic range and comment checks.
 pub fn get_nested_functions_content(
@@ -300,14 +325,17 @@ pub fn get_nested_functions_content(
         return Ok(None);
     }
 
+    let arguments = arguments?.items();
+    let unnamed_args = get_unnamed_args(&arguments);
+    let n_na_rm = usize::from(get_arg_by_name(&arguments, "na.rm").is_some());
+    if unnamed_args.len() > 1 || arguments.len() - unnamed_args.len() > n_na_rm {
+        return Ok(None);
+    }
+
     // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
-        .items()
-        .into_iter()
-        .find(|x| x.clone().unwrap().name_clause().is_none());
 
-    if let Some(arg) = unnamed_arg {
-        let value = arg?.value();
+    if let Some(arg) = unnamed_args.first() {
+        let value = arg.value();
         if let Some(inner) = value
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
@@ -320,6 +348,7 @@ pub fn get_nested_functions_content(
                 .to_string();
             return Ok(Some((inner_content, call.syntax().clone())));
         }
+        return Ok(None);
     }
 
     // Try piped cases. The call must be on the right side of a pipe binary expression.
@@ -358,14 +387,16 @@ pub fn get_nested_functions_content(
             && let Some(inner_call) = inner_right?.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
-            let has_unnamed_args = inner_call
-                .as_fields()
-                .arguments?
-                .items()
-                .into_iter()
-                .any(|x| x.unwrap().name_clause().is_none());
-            if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
+            let inner_args = inner_call.as_fields().arguments?.items();
+            if get_unnamed_args(&inner_args).is_empty() {
+                let content = std::iter::once(content_expr?.to_trimmed_string())
+                    .chain(
+                        get_named_args(&inner_args)
+                            .iter()
+                            .map(|x| x.to_trimmed_string()),
+                    )
+                    .collect::<Vec<String>>()
+                    .join(", ");
                 return Ok(Some((content, outer_syntax)));
             }
         }
-- 
2.43.0


From 3fc83e56192312190d0cffd9cb8477312c57a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 24/65] fix: match arguments to parameters as R does before
 rewriting calls

---
 .../lints/base/class_equals/class_equals.rs   |   9 +-
 .../src/lints/base/fixed_regex/fixed_regex.rs | 100 +++++++++++-------
 .../jarl-core/src/lints/base/grepv/grepv.rs   |  47 +++++---
 .../src/lints/base/lengths/lengths.rs         |  17 ++-
 .../src/lints/base/sample_int/sample_int.rs   |  40 +++----
 crates/jarl-core/src/lints/base/seq/seq.rs    |  15 ++-
 crates/jarl-core/src/lints/base/seq2/seq2.rs  |   8 +-
 .../base/string_boundary/string_boundary.rs   |  42 +++-----
 8 files changed, 159 insertions(+), 119 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
index 902c20c..c19b768 100644
--- a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
+++ b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_position, get_function_name, node_contains_comments};
+use crate::utils::{get_arg_by_position, get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -138,8 +138,11 @@ pub fn class_identical(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // when comparing class() output with a string.
 
     let args = ast.arguments()?.items();
-    let first_arg = unwrap_or_return_none!(get_arg_by_position(&args, 1));
-    let second_arg = unwrap_or_return_none!(get_arg_by_position(&args, 2));
+    // Skip calls with additional arguments, e.g. `ignore.environment`.
+    let matched = unwrap_or_return_none!(match_args(&args, &["x", "y"]));
+    let [Some(first_arg), Some(second_arg)] = matched.as_slice() else {
+        return Ok(None);
+    };
 
     let first_value = unwrap_or_return_none!(first_arg.value());
     let second_value = unwrap_or_return_none!(second_arg.value());
diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..ecea71c 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -1,8 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::drop_arg_by_name_or_position;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct FixedRegex;
 
@@ -53,39 +52,68 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let fn_name = get_function_name(function);
     let args = ast.arguments()?.items();
 
-    // Determine the position of the 'fixed' argument based on the function
-    let fixed_position = match fn_name.as_str() {
-        "grep" | "gsub" | "sub" => 6,
-        "regexpr" | "gregexpr" | "regexec" | "grepl" => 5,
+    let params: &[&str] = match fn_name.as_str() {
+        "grep" => &[
+            "pattern",
+            "x",
+            "ignore.case",
+            "perl",
+            "value",
+            "fixed",
+            "useBytes",
+            "invert",
+        ],
+        "grepl" => &["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"],
+        "gsub" | "sub" => &[
+            "pattern",
+            "replacement",
+            "x",
+            "ignore.case",
+            "perl",
+            "fixed",
+            "useBytes",
+        ],
+        "regexpr" | "gregexpr" | "regexec" => &[
+            "pattern",
+            "text",
+            "ignore.case",
+            "perl",
+            "fixed",
+            "useBytes",
+        ],
         _ => return Ok(None),
     };
+    let matched = unwrap_or_return_none!(match_args(&args, params));
+    let get_arg = |name: &str| {
+        let position = params.iter().position(|param| *param == name)?;
+        matched[position].clone()
+    };
 
-    // Check if fixed is already set to TRUE
-    if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+    // Only lint if `fixed` is missing or explicitly set to FALSE (it could be a
+    // variable).
+    let fixed_arg = get_arg("fixed");
+    if let Some(fixed_arg) = &fixed_arg
+        && unwrap_or_return_none!(fixed_arg.value()).to_trimmed_text() != "FALSE"
     {
-        // fixed = TRUE is already set, no need to lint
         return Ok(None);
     }
 
-    // Check if ignore.case is set to TRUE (implies regex interpretation)
-    let ignore_case_position = match fn_name.as_str() {
-        "gsub" | "sub" => 4,
-        "regexpr" | "gregexpr" | "regexec" | "grep" | "grepl" => 3,
-        _ => return Ok(None),
-    };
-    if let Some(ignore_case_arg) =
-        get_arg_by_name_then_position(&args, "ignore.case", ignore_case_position)
-        && let Some(value) = ignore_case_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+    // ignore.case = TRUE implies that regex interpretation is needed
+    if let Some(ignore_case_arg) = get_arg("ignore.case")
+        && unwrap_or_return_none!(ignore_case_arg.value()).to_trimmed_text() != "FALSE"
+    {
+        return Ok(None);
+    }
+
+    // Backslashes in the replacement don't have the same meaning if `fixed = TRUE`.
+    if let Some(replacement) = get_arg("replacement")
+        && replacement.to_trimmed_text().contains('\\')
     {
-        // ignore.case = TRUE implies regex interpretation is needed
         return Ok(None);
     }
 
     // Get the pattern argument (first argument for all functions)
-    let pattern_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "pattern", 1));
+    let pattern_arg = unwrap_or_return_none!(get_arg("pattern"));
     let pattern_value = unwrap_or_return_none!(pattern_arg.value());
 
     // Check if the pattern is a string literal
@@ -104,23 +132,13 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Pattern is fixed but fixed = TRUE is not set
     // Build the fix by adding fixed = TRUE to the arguments or changing the value
     // of fixed = FALSE.
-    let args_text = if let Some(fixed_arg) =
-        get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "FALSE"
-    {
-        unwrap_or_return_none!(drop_arg_by_name_or_position(&args, "fixed", fixed_position))
-            .into_iter()
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    } else {
-        args.into_iter()
-            .filter_map(|arg| arg.ok())
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    };
+    let args_text = args
+        .iter()
+        .flatten()
+        .filter(|arg| Some(arg) != fixed_arg.as_ref())
+        .map(|arg| arg.to_trimmed_string())
+        .collect::<Vec<_>>()
+        .join(", ");
 
     let fixed_content = format!("{}({}, fixed = TRUE)", fn_name, args_text);
 
diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..3aa97bd 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,9 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
-};
+use crate::utils::{get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 pub struct Grepv;
 
 /// ## What it does
@@ -58,22 +56,39 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
+    let params = [
+        "pattern",
+        "x",
+        "ignore.case",
+        "perl",
+        "value",
+        "fixed",
+        "useBytes",
+        "invert",
+    ];
+    let mut matched = unwrap_or_return_none!(match_args(&items, &params));
+    let value = unwrap_or_return_none!(matched[4].take());
 
-    if !arg_value_is_present {
+    // `value = FALSE` is the default of `grep()`.
+    if unwrap_or_return_none!(value.value()).to_trimmed_text() != "TRUE" {
         return Ok(None);
     }
 
-    let other_args = drop_arg_by_name_or_position(&items, "value", 5);
-
-    let inner_content = match other_args {
-        Some(x) => x
+    // `value` is also a parameter of `grepv()`, so an unnamed argument that comes
+    // after it would be passed to `value`.
+    let shifts_args = value.name_clause().is_none()
+        && matched[5..]
             .iter()
-            .map(|x| x.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", "),
-        None => "".to_string(),
-    };
+            .flatten()
+            .any(|x| x.name_clause().is_none());
+
+    let inner_content = items
+        .iter()
+        .flatten()
+        .filter(|arg| arg != &value)
+        .map(|arg| arg.to_trimmed_string())
+        .collect::<Vec<_>>()
+        .join(", ");
 
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
@@ -83,7 +98,7 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("grepv({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: shifts_args || node_contains_comments(ast.syntax()),
         },
     );
 
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 75ecf1c..05b66e5 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,7 +1,9 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name_then_position, get_function_name, match_args, node_contains_comments,
+};
 use air_r_syntax::*;
-use biome_rowan::{AstNode, AstSeparatedList};
+use biome_rowan::AstNode;
 
 pub struct Lengths;
 
@@ -63,8 +65,15 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         && arg_fun.syntax().text_trimmed() == "length"
     {
         // `lengths()` has none of the other arguments, e.g. `simplify`.
-        let n_args = if fn_name == "vapply" { 3 } else { 2 };
-        let has_other_args = arguments.len() > n_args;
+        let params: &[&str] = match fn_name.as_str() {
+            "vapply" => &["X", "FUN", "FUN.VALUE"],
+            "sapply" => &["X", "FUN"],
+            _ => &[".x", ".f"],
+        };
+        let matched = match_args(&arguments, params).unwrap_or_default();
+        let has_other_args = matched.is_empty()
+            || matched[0].as_ref().and_then(|x| x.value()) != Some(arg_x.clone())
+            || matched[1].as_ref().and_then(|x| x.value()) != Some(arg_fun);
 
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index 38a23df..249c7db 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -1,10 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
-    node_contains_comments,
-};
+use crate::utils::{get_arg_by_name, get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct SampleInt;
 
@@ -57,11 +54,18 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let n = get_arg_by_name_then_position(&args, "n", 1);
+    // The first parameter of `sample()` is `x`, but it's `n` in `sample.int()`.
+    let param = if get_arg_by_name(&args, "n").is_some() {
+        "n"
+    } else {
+        "x"
+    };
+    let matched = unwrap_or_return_none!(match_args(&args, &[param, "size", "replace", "prob"]));
+    let n = matched.into_iter().next().flatten();
 
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
-    let right_value = if let Some(n) = n {
+    let right_value = if let Some(n) = &n {
         let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
@@ -80,19 +84,15 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     };
 
-    let other_args = drop_arg_by_name_or_position(&args, "n", 1);
-    let inner_content = match other_args {
-        Some(x) => {
-            let out = x
-                .iter()
-                .map(|x| x.syntax().text_trimmed().to_string())
-                .collect::<Vec<_>>()
-                .join(", ");
-
-            [right_value, out].join(", ")
-        }
-        None => right_value,
-    };
+    let inner_content = std::iter::once(right_value)
+        .chain(
+            args.iter()
+                .flatten()
+                .filter(|arg| Some(arg) != n.as_ref())
+                .map(|arg| arg.to_trimmed_string()),
+        )
+        .collect::<Vec<_>>()
+        .join(", ");
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         SampleInt,
diff --git a/crates/jarl-core/src/lints/base/seq/seq.rs b/crates/jarl-core/src/lints/base/seq/seq.rs
index 8837ac6..9d97f62 100644
--- a/crates/jarl-core/src/lints/base/seq/seq.rs
+++ b/crates/jarl-core/src/lints/base/seq/seq.rs
@@ -1,6 +1,6 @@
 use crate::{
     diagnostic::*,
-    utils::{get_function_name, node_contains_comments},
+    utils::{get_function_name, match_args, node_contains_comments},
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -64,13 +64,12 @@ pub fn seq(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let right_fun_content = right_call
-        .arguments()?
-        .items()
-        .into_iter()
-        .map(|x| x.unwrap().to_trimmed_string())
-        .collect::<Vec<String>>()
-        .join(", ");
+    // All those functions have a single parameter, but it doesn't have the same
+    // name in `seq_along()`.
+    let right_fun_args = right_call.arguments()?.items();
+    let right_fun_arg = unwrap_or_return_none!(match_args(&right_fun_args, &["x"]));
+    let right_fun_arg = unwrap_or_return_none!(right_fun_arg.into_iter().next().flatten());
+    let right_fun_content = unwrap_or_return_none!(right_fun_arg.value()).to_trimmed_string();
 
     let (suggestion, replacement) = match right_fun_name.as_str() {
         "length" => (
diff --git a/crates/jarl-core/src/lints/base/seq2/seq2.rs b/crates/jarl-core/src/lints/base/seq2/seq2.rs
index 17e8b57..81924a6 100644
--- a/crates/jarl-core/src/lints/base/seq2/seq2.rs
+++ b/crates/jarl-core/src/lints/base/seq2/seq2.rs
@@ -1,6 +1,6 @@
 use crate::{
     diagnostic::*,
-    utils::{get_function_name, node_contains_comments},
+    utils::{get_function_name, match_args, node_contains_comments},
 };
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -75,7 +75,11 @@ pub fn seq2(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             return Ok(None);
         }
 
-        let inner_fun_content = arguments?.items().into_syntax().to_string();
+        // All those functions have a single parameter, but it doesn't have the same
+        // name in `seq_along()`.
+        let inner_fun_arg = unwrap_or_return_none!(match_args(&arguments?.items(), &["x"]));
+        let inner_fun_arg = unwrap_or_return_none!(inner_fun_arg.into_iter().next().flatten());
+        let inner_fun_content = unwrap_or_return_none!(inner_fun_arg.value()).to_trimmed_string();
 
         let (suggestion, replacement) = match inner_fn_name.as_str() {
             "length" => ("seq_along(...)", format!("seq_along({inner_fun_content})")),
diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..fc4e547 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -63,21 +63,22 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
 
     // Get arguments
     let arguments = call.arguments()?;
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    // Need at least 3 arguments (x, start, end)
-    if args.len() < 3 {
+    let params = if func_name == "substr" {
+        ["x", "start", "stop"]
+    } else {
+        ["text", "first", "last"]
+    };
+
+    // Need exactly 3 arguments (x, start, end)
+    let args = unwrap_or_return_none!(match_args(&arguments.items(), &params));
+    let [Some(x_arg), Some(start_arg), Some(end_arg)] = args.as_slice() else {
         return Ok(None);
-    }
+    };
 
     // Extract the expression values from arguments
-    let x_arg = unwrap_or_return_none!(args[0].value());
-    let start_arg = unwrap_or_return_none!(args[1].value());
-    let end_arg = unwrap_or_return_none!(args[2].value());
+    let x_arg = unwrap_or_return_none!(x_arg.value());
+    let start_arg = unwrap_or_return_none!(start_arg.value());
+    let end_arg = unwrap_or_return_none!(end_arg.value());
 
     // Get the string being compared
     let string_text = string_expr.syntax().text_trimmed();
@@ -193,18 +194,9 @@ fn is_nchar_of_same_expr(end_expr: &AnyRExpression, x_expr: &AnyRExpression) ->
         _ => return false,
     };
 
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    if args.len() != 1 {
-        return false;
-    }
-
-    // Get the expression from the first argument
-    let nchar_arg = match args[0].as_fields().value {
+    // Get the expression from the only argument
+    let args = match_args(&arguments.items(), &["x"]).unwrap_or_default();
+    let nchar_arg = match args.first().and_then(|x| x.as_ref()?.value()) {
         Some(v) => v,
         None => return false,
     };
-- 
2.43.0


From 9905df84fb86ed8438ff0bb6432baf96e6070cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 25/65] fix: don't lose or invent arguments in fixes of sort,
 system_file, sprintf and expectations

---
 crates/jarl-core/src/lints/base/sort/sort.rs  | 11 +++++++++-
 .../src/lints/base/sprintf/sprintf.rs         |  7 ++++--
 .../src/lints/base/system_file/system_file.rs | 22 +++++++++++++++----
 .../testthat/expect_named/expect_named.rs     |  5 +++--
 .../lints/testthat/expect_not/expect_not.rs   |  8 ++++++-
 .../lints/testthat/expect_null/expect_null.rs |  8 ++++---
 .../expect_true_false/expect_true_false.rs    |  5 +++--
 7 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index e179b18..2e71b12 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Sort;
 
@@ -94,6 +94,15 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
     let decreasing = get_arg_by_name(&args, "decreasing");
     let method = get_arg_by_name(&args, "method");
 
+    // Any other argument, even if it is named, is used to break ties.
+    let n_other_args = [&na_last, &decreasing, &method]
+        .iter()
+        .filter(|x| x.is_some())
+        .count();
+    if args.len() != n_other_args + 1 {
+        return Ok(None);
+    }
+
     // Prepare text of other args to include in the fix.
     let mut additional_args = vec![];
     if let Some(na_last) = na_last {
diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 7ba7020..d0533b5 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -4,7 +4,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -94,6 +94,9 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     // Check if it's a constant string (no valid specifiers)
     if parse_result.n_unique_special_chars == 0 {
+        // Other arguments could have an effect, e.g. if their length isn't 1.
+        let has_other_args = args.iter().count() > 1;
+
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             ViolationData::new(
@@ -106,7 +109,7 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: parse_result.output_string,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: has_other_args || node_contains_comments(ast.syntax()),
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..d9fbd52 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -79,7 +79,13 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let file_path_value = unwrap_or_return_none!(file_path.first().unwrap().value());
     let file_path_call = unwrap_or_return_none!(file_path_value.as_r_call());
 
-    let file_path_inner_content = file_path_call.arguments()?.items().iter().filter(|x| {
+    // `system.file()` doesn't have an argument `fsep`, and other names are useless.
+    let file_path_args = file_path_call.arguments()?.items();
+    if !get_named_args(&file_path_args).is_empty() {
+        return Ok(None);
+    }
+
+    let file_path_inner_content = file_path_args.iter().filter(|x| {
         if let Ok(x) = x {
             x.value().is_some()
         } else {
@@ -94,9 +100,17 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         .collect::<Vec<String>>()
         .join(", ");
 
-    let other_args = get_named_args(&args)
+    let file_path_range = file_path_value.syntax().text_trimmed_range();
+    let new_args = args
         .iter()
-        .map(|x| x.to_trimmed_string())
+        .flatten()
+        .map(|x| {
+            if x.syntax().text_trimmed_range() == file_path_range {
+                file_path_inner_content.clone()
+            } else {
+                x.to_trimmed_string()
+            }
+        })
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -105,7 +119,7 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({new_args})"),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..be29ed9 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -101,7 +101,8 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}expect_named({}, {})", namespace_prefix, x_text, n_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments, e.g. `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
index f4e646e..f2082b3 100644
--- a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
@@ -82,8 +82,14 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Strip outer parentheses if present: !(x && y) -> x && y
+    // (but keep those of `!(x = y)`, which would become a named argument)
     let inner_text = if let Some(paren_expr) = argument.as_r_parenthesized_expression() {
-        if let Ok(body) = paren_expr.body() {
+        if let Ok(body) = paren_expr.body()
+            && !body
+                .as_r_binary_expression()
+                .and_then(|x| x.operator().ok())
+                .is_some_and(|operator| operator.kind() == RSyntaxKind::EQUAL)
+        {
             body.to_trimmed_text()
         } else {
             argument.to_trimmed_text()
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..1a48eab 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -90,7 +90,8 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
             content: format!("{}expect_null({})", namespace_prefix, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments, e.g. `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
@@ -133,7 +134,8 @@ fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>>
             content: format!("{}expect_null({})", namespace_prefix, inner_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments, e.g. `info`, would be lost.
+            to_skip: args.iter().count() > 1 || node_contains_comments(ast.syntax()),
         },
     );
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..38f0746 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -105,7 +105,8 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}{}({})", namespace_prefix, new_function, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments, e.g. `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
-- 
2.43.0


From e07ed93958d5b8509ff2b752ab4408d799e6028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 26/65] fix: don't rewrite any(-x) as a negation nor NULL %in%
 x as is.null(x)

---
 .../src/lints/base/equals_null/equals_null.rs      |  5 +++++
 .../lints/base/outer_negation/outer_negation.rs    | 14 ++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
index 7b0860c..ddfc6f2 100644
--- a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
+++ b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
@@ -70,6 +70,11 @@ pub fn equals_null(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>
     if (left_is_null && right_is_null) || (!left_is_null && !right_is_null) {
         return Ok(None);
     }
+
+    // `NULL %in% x` is not equivalent to `is.null(x)`
+    if left_is_null && operator.kind() == RSyntaxKind::SPECIAL {
+        return Ok(None);
+    }
     let range = ast.syntax().text_trimmed_range();
 
     let replacement = if left_is_null {
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..fe3fff9 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -53,9 +53,15 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Skip `any(na.rm = !x)`.
+    if first_arg.name_clause().is_some() {
+        return Ok(None);
+    }
+
     let arg_value = unwrap_or_return_none!(first_arg.value());
-    // Check if the argument is a unary expression (negation)
-    if arg_value.syntax().kind() != RSyntaxKind::R_UNARY_EXPRESSION {
+    // Check if the argument is a unary expression (negation, and not e.g. `-x`)
+    let unary = unwrap_or_return_none!(arg_value.as_r_unary_expression());
+    if unary.operator()?.kind() != RSyntaxKind::BANG {
         return Ok(None);
     }
 
@@ -68,10 +74,6 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let expr = unwrap_or_return_none!(negated_expr);
 
-    // It looks like the first (and only) child of R_UNARY_EXPRESSION is what
-    // comes after "!". So we don't need to check that this is indeed using the
-    // BANG operator because it's the only R_UNARY_EXPRESSION available.
-
     // Don't report consecutive unary expressions (e.g., `any(!!x)`)
     if expr.kind() == RSyntaxKind::R_UNARY_EXPRESSION {
         return Ok(None);
-- 
2.43.0


From 073abf9efdbc07323e94195b7ae0af47f77a0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 27/65] fix: don't produce assignments that R refuses when
 changing the operator

---
 .../src/lints/base/assignment/assignment.rs   | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index 398f604..67ebd54 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -101,6 +101,28 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // `y = x = 1` is `y = (x = 1)`, but `y <- x = 1` is `(y <- x) = 1`, so the
+    // assignment on the right has to be fixed first.
+    let has_equal_on_right = operator.kind() == RSyntaxKind::EQUAL
+        && RBinaryExpression::cast_ref(&rhs)
+            .and_then(|x| x.operator().ok())
+            .is_some_and(|x| x.kind() == RSyntaxKind::EQUAL);
+
+    // `if (x = 1)` isn't valid R code.
+    let is_condition = assignment == RSyntaxKind::EQUAL
+        && ast
+            .syntax()
+            .next_sibling_or_token()
+            .is_some_and(|x| x.kind() == RSyntaxKind::R_PAREN)
+        && ast.syntax().parent().is_some_and(|x| {
+            matches!(
+                x.kind(),
+                RSyntaxKind::R_IF_STATEMENT
+                    | RSyntaxKind::R_WHILE_STATEMENT
+                    | RSyntaxKind::R_FOR_STATEMENT
+            )
+        });
+
     let between_operands = TextRange::new(
         lhs.text_trimmed_range().end(),
         rhs.text_trimmed_range().start(),
@@ -114,7 +136,9 @@ pub fn assignment(
             start: range.start().into(),
             end: range.end().into(),
             // Comments in the operands are kept by the fix.
-            to_skip: range_contains_comments(ast.syntax(), between_operands),
+            to_skip: has_equal_on_right
+                || is_condition
+                || range_contains_comments(ast.syntax(), between_operands),
         },
     );
 
-- 
2.43.0


From c8e538a5e5a10002a0361d86f1928fdf7be34f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 28/65] fix: the closest suppression comment is the one that is
 used

When comments hide a violation at several levels, the inner ones were reported
as outdated although the outer one was used for them too. A comment above the
first of several unreachable statements had no effect.
---
 crates/jarl-core/src/suppression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..845489f 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -657,9 +657,12 @@ impl SuppressionManager {
             }
         }
 
-        // Check node-level suppressions (cascading: diagnostic within node range)
-        for sup in &self.node_suppressions {
-            if sup.rule == rule && sup.node_range.contains_range(diag.range) {
+        // Check node-level suppressions (cascading: diagnostic within node range).
+        // Those are in source order, so the last one that applies is the closest.
+        // A diagnostic may span several statements (e.g. unreachable code), in which
+        // case the comment is above the first one.
+        for sup in self.node_suppressions.iter().rev() {
+            if sup.rule == rule && sup.node_range.contains(diag.range.start()) {
                 self.used_suppressions.insert(sup.comment_range);
                 return true;
             }
-- 
2.43.0


From eedf5dfce05be4be065b643a1a44c9aa599a8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 29/65] fix: report a jarl-ignore-start that another one
 replaces

---
 crates/jarl-core/src/suppression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 845489f..f4af934 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -442,9 +442,14 @@ impl SuppressionManager {
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
                         // Store with nesting level for proper matching
-                        collector
+                        let previous = collector
                             .starts
                             .insert((rule, nesting_level), (comment_range, comment_range));
+                        // Ranges for the same rule don't nest: the end that comes next
+                        // matches this start, so the previous one stays unmatched.
+                        if let Some((previous_range, _)) = previous {
+                            collector.unmatched_start_suppressions.push(previous_range);
+                        }
                     }
                     LintDirective::IgnoreEnd(rule) => {
                         // Only match with start at the same nesting level
-- 
2.43.0


From 84a3cd41605593ba8a4bf5f9908375c600024961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 30/65] fix: suppression comments above named arguments cover
 their value

---
 crates/jarl-core/src/suppression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index f4af934..d046a8f 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -55,7 +55,7 @@ impl CommentStyle for RCommentStyle {
             || enclosing.kind() == RSyntaxKind::R_ARGUMENT_LIST
         {
             // Comment is inside function call arguments. Attach to the following
-            // argument's first child (the actual expression).
+            // argument, so that both its name and its value are covered.
             //
             // Example:
             // ```
@@ -67,9 +67,9 @@ impl CommentStyle for RCommentStyle {
             // ```
             if let Some(following) = comment.following_node()
                 && following.kind() == RSyntaxKind::R_ARGUMENT
-                && let Some(first_child) = following.first_child()
             {
-                return CommentPlacement::leading(first_child, comment);
+                let following = following.clone();
+                return CommentPlacement::leading(following, comment);
             }
         }
 
-- 
2.43.0


From 009fb329f36a7b70ecd7cdbd96f3bed04cc7ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 31/65] fix: suppression comments apply in the order and at the
 place where they stand

- a comment after the last statement hid violations in the code above it
- a comment after a comma or bracket hid violations in the code of the next line
  instead of being misplaced
- an end in a call followed by a start made jarl panic
- a file comment within parentheses was accepted
---
 crates/jarl-core/src/suppression.rs | 45 ++++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index d046a8f..96a7ee0 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -340,30 +340,14 @@ impl SuppressionManager {
                     node_range,
                     collector,
                     is_first_expression,
-                    false, // not trailing
+                    // for instance a comment that follows a comma or a bracket
+                    Self::is_same_line_as_code(comment_range, source),
                     nesting_level,
                 );
                 i += 1;
             }
         }
 
-        // Process trailing comments (end-of-line comments)
-        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
-        // We need to check if the comment is actually on the same line as code (true end-of-line).
-        for comment in comments.trailing_comments(node) {
-            let range = comment.piece().text_range();
-            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                false,
-                is_true_end_of_line,
-                nesting_level,
-            );
-        }
-
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -372,7 +356,7 @@ impl SuppressionManager {
                 node_range,
                 collector,
                 false,
-                false, // not trailing
+                Self::is_same_line_as_code(comment.piece().text_range(), source),
                 nesting_level,
             );
         }
@@ -390,12 +374,33 @@ impl SuppressionManager {
                 &child,
                 comments,
                 collector,
-                is_first,
+                // No code before, such as an opening parenthesis
+                is_first && child.text_trimmed_range().start() == node_range.start(),
                 source,
                 child_nesting,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
+
+        // Process trailing comments (end-of-line comments). They come after the
+        // comments in the children, which matters to match starts and ends.
+        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
+        // We need to check if the comment is actually on the same line as code (true end-of-line).
+        for comment in comments.trailing_comments(node) {
+            let range = comment.piece().text_range();
+            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
+            // A comment on its own line applies to the code below it. Here there is
+            // none, so it must not apply to the code above: it covers only itself.
+            Self::process_comment(
+                comment.piece().text(),
+                range,
+                range,
+                collector,
+                false,
+                is_true_end_of_line,
+                nesting_level,
+            );
+        }
     }
 
     /// Check if a comment is on the same line as code (true end-of-line comment)
-- 
2.43.0


From e35c8eba54e6bb0cafd01adb7ec55a6933fc99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 32/65] fix: never insert suppression comments into multi-line
 strings

A violation on the line where a multi-line string ends got its comment at the
start of the line, which is in the string.
---
 crates/jarl-core/src/suppression_edit.rs | 31 +++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..c99cb32 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -217,7 +217,7 @@ pub fn compute_suppression_insert_point(
                         });
                     }
                 }
-                // Control flow with no inner expression - use line-start at the control flow
+                // Control flow with no inner expression - use the control flow itself
                 if on_own_line {
                     let (line_start_offset, indent) =
                         find_line_start_and_indent(source, node_start_offset);
@@ -230,6 +230,9 @@ pub fn compute_suppression_insert_point(
                         needs_leading_newline: false,
                     });
                 }
+                // It shares its line with other code, which may even be the end of a
+                // string, so the start of the line is not an option.
+                last_meaningful = Some(current.clone());
             } else {
                 // Non-control-flow meaningful expression - track it
                 last_meaningful = Some(current.clone());
@@ -275,6 +278,32 @@ pub fn compute_suppression_insert_point(
         });
     }
 
+    // No meaningful expression (e.g. `foo:::bar` alone) - use the whole statement
+    // if it shares its line with other code, which may even be the end of a string.
+    let statement = root
+        .syntax()
+        .token_at_offset(diagnostic_range.start())
+        .right_biased()
+        .and_then(|token| {
+            token.parent()?.ancestors().find(|node| {
+                node.parent()
+                    .is_some_and(|parent| parent.kind() == RSyntaxKind::R_EXPRESSION_LIST)
+            })
+        });
+    if let Some(statement) = statement {
+        let start: usize = statement.text_trimmed_range().start().into();
+        if !is_on_own_line(source, start) {
+            return Some(SuppressionInsertPoint {
+                offset: start,
+                indent: compute_inline_indent(source, start),
+                line: count_lines_to(source, start),
+                needs_leading_newline: true,
+            });
+        }
+        // It may have started before the line of the diagnostic.
+        return compute_simple_insert_point(source, start);
+    }
+
     // Fallback to simple insertion
     compute_simple_insert_point(source, diagnostic_start)
 }
-- 
2.43.0


From c872fed4d6e8e59fcb7e041c0758ecfe3cb7292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 33/65] fix: line of suppression comments in R Markdown and
 Quarto chunks

The line of the insertion point was counted from the start of the chunk, so
editors inserted the comment near the top of the document.
---
 crates/jarl-core/src/suppression_edit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index c99cb32..60b414f 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -465,8 +465,9 @@ pub fn create_suppression_edit_in_rmd(
             let local_end = diagnostic_end.saturating_sub(chunk.start_byte);
             let mut insert_point =
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
-            // Remap chunk-local offset to file-level offset.
+            // Remap chunk-local offset and line to file-level ones.
             insert_point.offset += chunk.start_byte;
+            insert_point.line += file_content[..chunk.start_byte].matches('\n').count();
             let comment_text = format_suppression_comments(
                 &[rule_name],
                 explanation,
-- 
2.43.0


From 16a5e61c43c1793b12f32c06c4cf590be4732ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 34/65] fix: negotiated encoding for the position of
 suppression comments

Comments that go into the middle of a line were placed by byte, which is
another place in UTF-16 if the line contains other characters than ASCII.
---
 crates/jarl-lsp/src/server.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..3d9ab45 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -508,6 +508,7 @@ impl Server {
         use jarl_core::suppression_edit;
 
         let content = snapshot.content();
+        let encoding = snapshot.position_encoding();
 
         // Extract the rule name and diagnostic byte range from the diagnostic data
         let fix_data = diagnostic.data.as_ref()?;
@@ -560,7 +561,9 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
+            let insert_pos =
+                crate::lint::byte_offset_to_lsp_position(insert_point.offset, content, encoding)
+                    .ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -621,6 +624,7 @@ impl Server {
         }
 
         let content = snapshot.content();
+        let encoding = snapshot.position_encoding();
 
         let fix_data = diagnostic.data.as_ref()?;
         let fix: crate::lint::DiagnosticFix = serde_json::from_value(fix_data.clone()).ok()?;
@@ -645,7 +649,8 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos =
+            crate::lint::byte_offset_to_lsp_position(chunk.start_byte, content, encoding).ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -668,15 +673,6 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
     /// Get the text of a specific line
     fn get_line_text(content: &str, line_number: usize) -> Option<String> {
         content.lines().nth(line_number).map(|s| s.to_string())
-- 
2.43.0


From 6dfef4dbf612821def809af7adf693449cadbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 35/65] fix: use the config in the user config directory

Since files are checked with their closest jarl.toml, the jarl.toml in the user
config directory was found but never applied: it isn't above any project.
---
 crates/jarl-core/src/discovery.rs | 22 ++++++++++++++++++----
 crates/jarl/src/commands/check.rs |  9 ++++-----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..6b14e0e 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -44,6 +44,23 @@ fn get_user_config_dir() -> Option<PathBuf> {
     Some(strategy.config_dir().join("jarl"))
 }
 
+/// The settings that apply to `path` and the directory of their config file: those
+/// of the closest `jarl.toml`, or else those of the user config directory.
+pub fn resolve_settings<'a>(
+    resolver: &'a PathResolver<Settings>,
+    path: &Path,
+) -> Option<(&'a Path, &'a Settings)> {
+    let item = resolver.resolve(path).or_else(|| {
+        let user_config_dir = get_user_config_dir()?;
+        resolver
+            .items()
+            .iter()
+            .find(|item| item.path() == user_config_dir.as_path())
+    })?;
+    let directory: &Path = item.path();
+    Some((directory, item.value()))
+}
+
 /// This is the core function for walking a set of `paths` looking for `jarl.toml`s.
 ///
 /// You typically follow this function up by loading the set of returned path into a
@@ -296,13 +313,10 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
                 return true;
             };
 
-            let Some(item) = resolver.resolve(path) else {
+            let Some((root, settings)) = resolve_settings(resolver, path) else {
                 return true;
             };
 
-            let settings = item.value();
-            let root = item.path();
-
             // Exclude filter: remove files matching any exclude pattern
             if let Some(exclude_patterns) = &settings.linter.exclude
                 && !exclude_patterns.is_empty()
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 3247482..0f3499a 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,5 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings};
+use jarl_core::discovery::{discover_r_file_paths, discover_settings, resolve_settings};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -93,12 +93,11 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     };
 
     // Group paths by their closest resolved config directory, so each file is
-    // checked with the settings from the nearest jarl.toml.
+    // checked with the settings from the nearest jarl.toml (or from the user
+    // config directory if there is none).
     let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
-        let key = resolver
-            .resolve(&path)
-            .map(|item| item.path().to_path_buf());
+        let key = resolve_settings(&resolver, &path).map(|(directory, _)| directory.to_path_buf());
         groups.entry(key).or_default().push(path);
     }
 
-- 
2.43.0


From af7885c95ac44c6538d6a0a38b4dc2cef223e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 36/65] fix: apply exclude patterns to the files of their own
 config only, and check each file once

The exclude patterns of the first config were used for all files, also those
outside its directory, and not for directories given explicitly. Overlapping
paths made jarl check (and fix) the same file several times at once.
---
 crates/jarl-core/src/discovery.rs | 273 +++++++++++++++++++-----------
 1 file changed, 178 insertions(+), 95 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 6b14e0e..dd470f8 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -5,6 +5,7 @@
 // MIT License - Posit PBC
 
 use ignore::DirEntry;
+use ignore::overrides::{Override, OverrideBuilder};
 use rustc_hash::FxHashSet;
 use std::path::Path;
 use std::path::PathBuf;
@@ -243,47 +244,7 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     builder.git_global(true);
     builder.git_exclude(true);
 
-    // Add exclude patterns from settings if linter settings should be used
-    if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
-    }
+    let exclusions = use_linter_settings.then(|| Exclusions::new(resolver, no_default_exclude));
 
     // Prefer `available_parallelism()`, with a max of 12 threads
     builder.threads(
@@ -296,76 +257,179 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     // Run the `WalkParallel` to collect all R files.
     let state = FilesState::new();
-    let mut visitor_builder = FilesVisitorBuilder::new(&state);
+    let mut visitor_builder = FilesVisitorBuilder::new(&state, exclusions.as_ref());
     walker.visit(&mut visitor_builder);
 
     let mut files = state.finish();
 
-    // Post-filter: apply per-config exclude and include patterns.
-    //
-    // The WalkBuilder above only applies the first config's exclude patterns.
-    // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
-    // resolving each file to its nearest config.
-    if use_linter_settings {
+    // The same file can be found several times if `paths` overlap.
+    let mut seen = FxHashSet::default();
+    files.retain(|result| match result {
+        Ok(path) => seen.insert(path.clone()),
+        Err(_) => true,
+    });
+
+    // Post-filter: the walker accepts explicitly provided files, so `exclude`
+    // still has to be applied to them, and `include` applies to files only.
+    if let Some(exclusions) = &exclusions {
         files.retain(|result| {
             let Ok(path) = result else {
                 return true;
             };
+            !exclusions.matches_exclude(path, false) && exclusions.is_included(path)
+        });
+    }
 
-            let Some((root, settings)) = resolve_settings(resolver, path) else {
-                return true;
-            };
+    files
+}
 
-            // Exclude filter: remove files matching any exclude pattern
-            if let Some(exclude_patterns) = &settings.linter.exclude
-                && !exclude_patterns.is_empty()
-            {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in exclude_patterns {
-                    if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                        tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if matches!(overrides.matched(relative, false), ignore::Match::Ignore(_)) {
-                        return false;
-                    }
-                }
+/// Whether `path`, a file that was found by any means (e.g. because it is open in
+/// an editor), is excluded by the config that applies to it.
+pub fn is_excluded(path: &Path, resolver: &PathResolver<Settings>) -> bool {
+    let exclusions = Exclusions::new(resolver, false);
+    exclusions.is_excluded(path, false) || !exclusions.is_included(path)
+}
+
+/// The `exclude`, `include` and `default-exclude` arguments of all configs.
+struct Exclusions<'a> {
+    resolver: &'a PathResolver<Settings>,
+    /// `exclude` patterns of each config, with the directory they apply to. This
+    /// is `None` for the config in the user config directory.
+    exclude: Vec<(Option<PathBuf>, Override)>,
+    default_exclude: Override,
+    no_default_exclude: bool,
+}
+
+impl<'a> Exclusions<'a> {
+    fn new(resolver: &'a PathResolver<Settings>, no_default_exclude: bool) -> Self {
+        let user_config_dir = get_user_config_dir();
+        let mut exclude = Vec::new();
+        for item in resolver.items() {
+            let Some(patterns) = &item.value().linter.exclude else {
+                continue;
+            };
+            let directory: &Path = item.path();
+            let patterns = patterns.iter().map(|pattern| format!("!{pattern}"));
+            if Some(directory) == user_config_dir.as_deref() {
+                exclude.push((None, build_override(Path::new("."), patterns)));
+            } else {
+                let patterns = build_override(directory, patterns);
+                exclude.push((Some(directory.to_path_buf()), patterns));
             }
+        }
 
-            // Include filter: if set, only keep files matching at least one pattern
-            if let Some(include_patterns) = &settings.linter.include
-                && !include_patterns.is_empty()
-            {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in include_patterns {
-                    let file_pattern = if pattern.ends_with('/') {
-                        format!("{}**", pattern)
-                    } else {
-                        pattern.clone()
-                    };
-                    if let Err(e) = override_builder.add(&file_pattern) {
-                        tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if !matches!(
-                        overrides.matched(relative, false),
-                        ignore::Match::Whitelist(_)
-                    ) {
+        let default_exclude = build_override(
+            Path::new("."),
+            DEFAULT_EXCLUDE_PATTERNS
+                .iter()
+                .map(|pattern| format!("!{pattern}")),
+        );
+
+        Self {
+            resolver,
+            exclude,
+            default_exclude,
+            no_default_exclude,
+        }
+    }
+
+    /// Whether `path` itself matches a pattern in `exclude` of a config above it.
+    fn matches_exclude(&self, path: &Path, is_dir: bool) -> bool {
+        self.exclude.iter().any(|(directory, patterns)| {
+            let path = match directory {
+                Some(directory) => match path.strip_prefix(directory) {
+                    Ok(relative) => relative,
+                    Err(_) => return false,
+                },
+                None => {
+                    let is_used = resolve_settings(self.resolver, path)
+                        .is_some_and(|(directory, _)| !path.starts_with(directory));
+                    if !is_used {
                         return false;
                     }
+                    path
                 }
-            }
+            };
+            patterns.matched(path, is_dir).is_ignore()
+        })
+    }
+
+    /// Whether `path` itself matches a default pattern, if those are used.
+    fn matches_default_exclude(&self, path: &Path, is_dir: bool) -> bool {
+        let use_default_exclude = match resolve_settings(self.resolver, path) {
+            Some((_, settings)) => settings.linter.default_exclude.unwrap_or(true),
+            None => !self.no_default_exclude,
+        };
+        use_default_exclude && self.default_exclude.matched(path, is_dir).is_ignore()
+    }
+
+    fn matches(&self, path: &Path, is_dir: bool) -> bool {
+        self.matches_exclude(path, is_dir) || self.matches_default_exclude(path, is_dir)
+    }
+
+    /// Whether `path` or one of its parent directories in the project is excluded.
+    fn is_excluded(&self, path: &Path, is_dir: bool) -> bool {
+        // The project starts where the outermost config is or, if there is none,
+        // in the current working directory.
+        let root = self
+            .project_root(path)
+            .unwrap_or_else(|| fs::normalize_path("."));
+
+        self.matches(path, is_dir)
+            || path
+                .ancestors()
+                .skip(1)
+                .take_while(|parent| *parent != root && parent.starts_with(&root))
+                .any(|parent| self.matches(parent, true))
+    }
 
-            true
+    fn project_root(&self, path: &Path) -> Option<PathBuf> {
+        self.resolver
+            .items()
+            .iter()
+            .map(|item| {
+                let directory: &Path = item.path();
+                directory
+            })
+            .filter(|directory| path.starts_with(directory))
+            .min_by_key(|directory| directory.components().count())
+            .map(Path::to_path_buf)
+    }
+
+    /// Whether `path` matches a pattern in `include`, if there are any.
+    fn is_included(&self, path: &Path) -> bool {
+        let Some((directory, settings)) = resolve_settings(self.resolver, path) else {
+            return true;
+        };
+        let Some(include) = &settings.linter.include else {
+            return true;
+        };
+        if include.is_empty() {
+            return true;
+        }
+
+        let patterns = include.iter().map(|pattern| {
+            if pattern.ends_with('/') {
+                format!("{pattern}**")
+            } else {
+                pattern.clone()
+            }
         });
+        let relative = path.strip_prefix(directory).unwrap_or(path);
+        build_override(directory, patterns)
+            .matched(relative, false)
+            .is_whitelist()
     }
+}
 
-    files
+fn build_override(root: &Path, patterns: impl Iterator<Item = String>) -> Override {
+    let mut builder = OverrideBuilder::new(root);
+    for pattern in patterns {
+        if let Err(e) = builder.add(&pattern) {
+            tracing::warn!("Failed to add pattern '{}': {}", pattern, e);
+        }
+    }
+    builder.build().unwrap_or_else(|_| Override::empty())
 }
 
 /// Shared state across the threads of the walker
@@ -389,18 +453,23 @@ impl FilesState {
 /// [ignore::WalkParallel] utilizes to create one [FilesVisitor] per thread.
 struct FilesVisitorBuilder<'state> {
     state: &'state FilesState,
+    exclusions: Option<&'state Exclusions<'state>>,
 }
 
 impl<'state> FilesVisitorBuilder<'state> {
-    fn new(state: &'state FilesState) -> Self {
-        Self { state }
+    fn new(state: &'state FilesState, exclusions: Option<&'state Exclusions<'state>>) -> Self {
+        Self { state, exclusions }
     }
 }
 
 impl<'state> ignore::ParallelVisitorBuilder<'state> for FilesVisitorBuilder<'state> {
     /// Constructs the per-thread [FilesVisitor], called for us by `ignore`
     fn build(&mut self) -> Box<dyn ignore::ParallelVisitor + 'state> {
-        Box::new(FilesVisitor { files: vec![], state: self.state })
+        Box::new(FilesVisitor {
+            files: vec![],
+            state: self.state,
+            exclusions: self.exclusions,
+        })
     }
 }
 
@@ -412,6 +481,7 @@ impl<'state> ignore::ParallelVisitorBuilder<'state> for FilesVisitorBuilder<'sta
 struct FilesVisitor<'state> {
     files: DiscoveredFiles,
     state: &'state FilesState,
+    exclusions: Option<&'state Exclusions<'state>>,
 }
 
 impl ignore::ParallelVisitor for FilesVisitor<'_> {
@@ -462,6 +532,19 @@ impl ignore::ParallelVisitor for FilesVisitor<'_> {
             return ignore::WalkState::Continue;
         }
 
+        if let Some(exclusions) = self.exclusions {
+            // The parents of discovered entries are known not to be excluded
+            let is_excluded = if is_explicit {
+                exclusions.is_excluded(path, is_directory)
+            } else {
+                exclusions.matches(path, is_directory)
+            };
+            if is_excluded {
+                tracing::trace!("Excluded {path}", path = path.display());
+                return ignore::WalkState::Skip;
+            }
+        }
+
         // Check if this is an R or Rmd/Qmd file
         if !is_directory && (has_r_extension(path) || has_rmd_extension(path)) {
             tracing::trace!("Included R file {path}", path = path.display());
-- 
2.43.0


From 97136eef851e68aed49e9db10513a5e80a05656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 37/65] fix: exclude files in the language server as the
 command line program does

---
 crates/jarl-lsp/src/utils.rs | 49 +++---------------------------------
 1 file changed, 3 insertions(+), 46 deletions(-)

diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..686367f 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -3,7 +3,6 @@
 use std::path::Path;
 
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
 use jarl_core::settings::Settings;
 
 /// Check if a path string matches an exclusion pattern
@@ -103,8 +102,8 @@ pub fn should_exclude_file(file_path: &Path, patterns: &[&str]) -> bool {
 
 /// Check if a file should be excluded based on settings from jarl.toml
 ///
-/// This function checks both the `default-exclude` option (which is `true` by default)
-/// and any custom `exclude` patterns specified in the jarl.toml configuration.
+/// This applies the `default-exclude`, `exclude` and `include` options in the same
+/// way as the CLI does for the files it finds in a directory.
 ///
 /// # Arguments
 /// * `file_path` - The path to the file to check
@@ -116,49 +115,7 @@ pub fn should_exclude_file_based_on_settings(
     file_path: &Path,
     resolver: &PathResolver<Settings>,
 ) -> bool {
-    // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-    }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
+    jarl_core::discovery::is_excluded(file_path, resolver)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3037b3781e73ac5a079f36f6951246ed1641b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 38/65] fix: don't publish outdated diagnostics in the language
 server

---
 crates/jarl-lsp/src/client.rs | 43 +++++++++++++++++++++++++++++++++++
 crates/jarl-lsp/src/server.rs | 13 +++++++----
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-lsp/src/client.rs b/crates/jarl-lsp/src/client.rs
index 7473fc8..3add9cc 100644
--- a/crates/jarl-lsp/src/client.rs
+++ b/crates/jarl-lsp/src/client.rs
@@ -23,6 +23,15 @@ pub struct Client {
     /// Whether we've already shown the unused_function threshold notification
     /// this session. Shared across all clones so it fires at most once.
     unused_fn_threshold_notified: Arc<std::sync::atomic::AtomicBool>,
+    /// Which linting of each document is the latest one, so that the results of
+    /// earlier ones that take longer aren't published.
+    latest_lint: Arc<std::sync::Mutex<LatestLint>>,
+}
+
+#[derive(Debug, Default)]
+struct LatestLint {
+    count: u64,
+    documents: HashMap<types::Url, u64>,
 }
 
 /// Information about a pending request sent to the client
@@ -40,6 +49,7 @@ impl Client {
             request_id_counter: Arc::new(std::sync::atomic::AtomicI32::new(1)),
             pending_requests: Arc::new(std::sync::Mutex::new(HashMap::new())),
             unused_fn_threshold_notified: Arc::new(std::sync::atomic::AtomicBool::new(false)),
+            latest_lint: Arc::default(),
         }
     }
 
@@ -135,6 +145,39 @@ impl Client {
         )
     }
 
+    /// Register that a document is about to be linted. The results of previous
+    /// lintings of this document that haven't been published yet are outdated.
+    pub fn start_lint(&self, uri: &types::Url) -> u64 {
+        let mut latest = self.latest_lint.lock().unwrap();
+        latest.count += 1;
+        let lint_id = latest.count;
+        latest.documents.insert(uri.clone(), lint_id);
+        lint_id
+    }
+
+    /// Publish the results of a linting unless they are outdated
+    pub fn publish_lint(
+        &self,
+        lint_id: u64,
+        uri: types::Url,
+        diagnostics: Vec<types::Diagnostic>,
+        version: Option<i32>,
+    ) -> Result<()> {
+        // Keep the lock while publishing so that no later results get in between.
+        let latest = self.latest_lint.lock().unwrap();
+        if latest.documents.get(&uri) == Some(&lint_id) {
+            self.publish_diagnostics(uri, diagnostics, version)?;
+        }
+        Ok(())
+    }
+
+    /// Remove the diagnostics of a closed document
+    pub fn clear_diagnostics(&self, uri: types::Url) -> Result<()> {
+        let mut latest = self.latest_lint.lock().unwrap();
+        latest.documents.remove(&uri);
+        self.publish_diagnostics(uri, vec![], None)
+    }
+
     /// Convenience method to show a message to the user
     pub fn show_message(&self, message: &str, message_type: types::MessageType) -> Result<()> {
         self.send_notification::<types::notification::ShowMessage>(types::ShowMessageParams {
diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 3d9ab45..29ac872 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -41,6 +41,7 @@ pub enum Task {
     /// Lint a document and publish diagnostics
     LintDocument {
         snapshot: Box<DocumentSnapshot>,
+        lint_id: u64,
         client: Client,
     },
     /// Handle a code action request
@@ -319,7 +320,7 @@ impl Server {
                 // Clear diagnostics for the closed document
                 session
                     .client()
-                    .publish_diagnostics(params.text_document.uri, vec![], None)?;
+                    .clear_diagnostics(params.text_document.uri)?;
                 Ok(())
             }
             types::notification::DidSaveTextDocument::METHOD => {
@@ -330,6 +331,7 @@ impl Server {
 
                 if let Some(snapshot) = session.take_snapshot(params.text_document.uri) {
                     task_sender.send(Task::LintDocument {
+                        lint_id: session.client().start_lint(snapshot.uri()),
                         snapshot: Box::new(snapshot),
                         client: session.client().clone(),
                     })?;
@@ -351,8 +353,8 @@ impl Server {
     ) {
         while let Ok(task) = task_receiver.recv() {
             match task {
-                Task::LintDocument { snapshot, client } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client) {
+                Task::LintDocument { snapshot, lint_id, client } => {
+                    if let Err(e) = Self::handle_lint_task(*snapshot, lint_id, client) {
                         tracing::error!("Error in lint task: {}", e);
                     }
                 }
@@ -364,7 +366,7 @@ impl Server {
     }
 
     /// Handle linting a document and publishing diagnostics
-    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
+    fn handle_lint_task(snapshot: DocumentSnapshot, lint_id: u64, client: Client) -> LspResult<()> {
         let start = Instant::now();
         let output = lint::lint_document(&snapshot)?;
         let elapsed = start.elapsed();
@@ -380,7 +382,8 @@ impl Server {
             let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
         }
 
-        client.publish_diagnostics(
+        client.publish_lint(
+            lint_id,
             snapshot.uri().clone(),
             output.diagnostics,
             Some(snapshot.version()),
-- 
2.43.0


From 40049489190d6bb8f1a7f38ecde5a926851910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 39/65] fix: answer code action requests with invalid
 parameters

---
 crates/jarl-lsp/src/server.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 29ac872..da99137 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -13,7 +13,7 @@ use std::thread;
 use std::time::Instant;
 
 use crate::LspResult;
-use crate::client::{Client, ToLspError};
+use crate::client::{Client, ToLspError, error_codes};
 use crate::document::TextDocument;
 use crate::lint;
 use crate::session::{DocumentSnapshot, Session, negotiate_position_encoding};
@@ -227,7 +227,17 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid parameters: {e}")
+                                .to_lsp_error_with_code(error_codes::INVALID_PARAMS),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From 3f599790fc08dd61d0535b7f2962c9209a9bc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 40/65] fix: answer all pending requests when the language
 server exits

---
 crates/jarl-lsp/src/server.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index da99137..ee6c43f 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -145,6 +145,14 @@ impl Server {
                 // Handle LSP messages from client
                 recv(self.connection.receiver) -> msg => {
                     match msg {
+                        // Return rather than exit so that pending responses are written
+                        Ok(Message::Notification(notification))
+                            if notification.method == types::notification::Exit::METHOD
+                                && session.is_shutdown_requested() =>
+                        {
+                            tracing::info!("Clean shutdown requested");
+                            break;
+                        }
                         Ok(msg) => {
                             if let Err(e) = self.handle_message(msg, &mut session, &task_sender) {
                                 tracing::error!("Error handling message: {}", e);
@@ -180,10 +188,6 @@ impl Server {
                     }
                 }
             }
-
-            if session.is_shutdown_requested() {
-                break;
-            }
         }
 
         tracing::info!("Main loop stopped");
@@ -218,6 +222,16 @@ impl Server {
     ) -> LspResult<()> {
         let client = session.client().clone();
 
+        // Only the `exit` notification is valid after `shutdown`
+        if session.is_shutdown_requested() {
+            client.send_error_response(
+                request.id,
+                anyhow!("The server is shutting down")
+                    .to_lsp_error_with_code(error_codes::INVALID_REQUEST),
+            )?;
+            return Ok(());
+        }
+
         match request.method.as_str() {
             types::request::Shutdown::METHOD => {
                 session.request_shutdown();
@@ -279,12 +293,9 @@ impl Server {
         tracing::debug!("Handling notification: {}", notification.method);
         match notification.method.as_str() {
             types::notification::Exit::METHOD => {
-                if session.is_shutdown_requested() {
-                    tracing::info!("Clean shutdown requested");
-                } else {
-                    tracing::warn!("Exit without shutdown - this is a protocol violation");
-                }
-                std::process::exit(0);
+                // A clean shutdown is handled in the main loop
+                tracing::warn!("Exit without shutdown - this is a protocol violation");
+                std::process::exit(1);
             }
             types::notification::DidOpenTextDocument::METHOD => {
                 let params: types::DidOpenTextDocumentParams =
-- 
2.43.0


From 0c4780942153f3c6431bab2905eee5eaf1a05a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:22 +0000
Subject: [PATCH 41/65] fix: find the DESCRIPTION of a package from the files
 in its directories

---
 crates/jarl-core/src/config.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index f1435dc..00dad8c 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -518,25 +518,37 @@ fn determine_minimum_r_version(
         return Ok(Some(parse_r_version(version_string.clone())?));
     }
 
-    // Look for DESCRIPTION file in any of the project paths
+    // Look for DESCRIPTION file in any of the project paths. In a package, it is
+    // in a parent directory of most files.
     // TODO: this seems wasteful but I don't have a good infrastructure for now
     // for getting the common root of the paths.
+    let mut visited = HashSet::new();
     for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
+        let path = std::path::absolute(path)?;
+        for directory in path.ancestors() {
+            // Its parent directories have already been searched
+            if !visited.insert(directory.to_path_buf()) {
+                break;
+            }
+
+            let desc_path = directory.join("DESCRIPTION");
+            if !desc_path.is_file() {
+                continue;
+            }
 
-        if desc_path.exists() {
             let desc = fs::read_to_string(&desc_path)?;
             if let Ok(versions) = Description::get_depend_r_version(&desc)
                 && let Some(version_str) = versions.first()
             {
-                return Ok(Some(parse_r_version(version_str.to_string())?));
+                // `R (>= 4)` is the same as `R (>= 4.0)`
+                let version = if version_str.contains('.') {
+                    version_str.to_string()
+                } else {
+                    format!("{version_str}.0")
+                };
+                return Ok(Some(parse_r_version(version)?));
             }
+            break;
         }
     }
 
-- 
2.43.0


From 0840eb05960f6ed5a2c97fb9893a070a5daa79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 42/65] fix: report configs that cannot be read instead of
 panicking

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From fca0baf5e7037285824d87c4a51cc4adcd5b228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 43/65] fix: report files that cannot be checked with
 --statistics and --add-jarl-ignore

---
 crates/jarl/src/commands/check.rs | 19 +++++++++++++++++--
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 0f3499a..7264678 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -21,7 +21,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -132,7 +134,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        print_errors(&all_errors);
+        let status = add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path)?;
+        return Ok(if all_errors.is_empty() {
+            status
+        } else {
+            ExitStatus::Error
+        });
     }
 
     let (unused_fn_hidden, unused_fn_count) =
@@ -147,6 +155,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
+        if !all_errors.is_empty() {
+            print_errors(&all_errors);
+            if !all_diagnostics_flat.is_empty() {
+                print_statistics(&all_diagnostics_flat, parent_config_path)?;
+            }
+            return Ok(ExitStatus::Error);
+        }
         return print_statistics(&all_diagnostics_flat, parent_config_path);
     }
 
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..a60c0c9 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -107,6 +107,18 @@ pub fn print_notes(notes: &[String]) {
     }
 }
 
+/// Prints the files that couldn't be checked to stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 #[derive(Debug, Serialize)]
 struct JsonOutput<'a> {
     diagnostics: Vec<&'a Diagnostic>,
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
-- 
2.43.0


From e56a7501daf6bbea599cdf9c67b6f2c5adde0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 44/65] fix: stable order of rules with the same count in
 --statistics

---
 crates/jarl/src/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..fa474ef 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -26,8 +26,8 @@ pub fn print_statistics(
     }
 
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    // Rules with the same count are in alphabetical order
+    sorted.sort_by_key(|(name, value)| (std::cmp::Reverse(value.0), *name));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From 2f44e40c42187eaa9eabc22c53ab6bacad5d2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 45/65] fix: escape file names and messages in the Github
 output

---
 crates/jarl/src/output_format.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index a60c0c9..06ba07a 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -245,6 +245,20 @@ impl Emitter for JsonEmitter {
     }
 }
 
+/// Escapes the message of a Github workflow command.
+fn escape_github_data(text: &str) -> String {
+    text.replace('%', "%25")
+        .replace('\r', "%0D")
+        .replace('\n', "%0A")
+}
+
+/// Escapes the value of a property in a Github workflow command.
+fn escape_github_property(text: &str) -> String {
+    escape_github_data(text)
+        .replace(':', "%3A")
+        .replace(',', "%2C")
+}
+
 pub struct GithubEmitter;
 
 impl Emitter for GithubEmitter {
@@ -274,9 +288,10 @@ impl Emitter for GithubEmitter {
             //   without the Github annotations.
             write!(
                 writer,
-                "::warning title=Jarl ({}),file={file},line={row},col={col}::{file}:{row}:{col} ",
+                "::warning title=Jarl ({}),file={},line={row},col={col}::{}:{row}:{col} ",
                 diagnostic.message.name,
-                file = diagnostic.filename.to_string_lossy()
+                escape_github_property(&diagnostic.filename.to_string_lossy()),
+                escape_github_data(&diagnostic.filename.to_string_lossy()),
             )?;
 
             let message = if let Some(suggestion) = &diagnostic.message.suggestion {
@@ -284,6 +299,7 @@ impl Emitter for GithubEmitter {
             } else {
                 diagnostic.message.body.clone()
             };
+            let message = escape_github_data(&message);
             writeln!(writer, "[{}] {}", diagnostic.message.name, message)?;
         }
 
-- 
2.43.0


From 2e28c898c2e052720b1c3ab01b324bdbfeaf41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 46/65] fix: valid JSON output when there are no R files

---
 crates/jarl/src/commands/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 7264678..86153f1 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -72,6 +72,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         .collect::<Vec<_>>();
 
     if paths.is_empty() {
+        // Keep the structured output valid
+        if args.output_format == OutputFormat::Json && !args.statistics {
+            eprintln!("Warning: No R files found under the given path(s).");
+            JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
+            return Ok(ExitStatus::Success);
+        }
+
         println!(
             "{}: {}",
             "Warning".yellow().bold(),
-- 
2.43.0


From a4fdbde77d181ba6de775a95a22622bf33c7febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 47/65] fix: look for uncommitted changes in the right
 directory for Git worktrees and submodules

---
 crates/jarl-core/src/vcs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..3c5cb78 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -28,10 +28,11 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
-                // Get the repository root path as a key
+                // Get the repository root path as a key. This isn't necessarily
+                // the parent of the git directory, e.g. for worktrees and
+                // submodules.
                 let repo_path = repo
-                    .path()
-                    .parent()
+                    .workdir()
                     .and_then(|p| p.to_str())
                     .unwrap_or("")
                     .to_string();
-- 
2.43.0


From b16aa5fa03e3c0d2aa2559479e36ceb1ca7091d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:57 +0000
Subject: [PATCH 48/65] fix: unused functions in packages below directories
 called 'src' or 'tests', and in nested packages

---
 .../base/unused_function/unused_function.rs   |  5 ++-
 crates/jarl-core/src/package.rs               | 44 ++++++++++++-------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 0154448..78709fc 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -440,7 +440,10 @@ pub(crate) fn compute_unused_from_shared(
                     let definitions = scope_definitions.get(name.as_str()).copied().unwrap_or(0);
 
                     if occurrences <= definitions {
-                        let scope_dir = scope_dir_from_path(&file.rel_path);
+                        let root = crate::fs::relativize_path(&file.package_root);
+                        let path_in_package =
+                            file.rel_path.strip_prefix(root).unwrap_or(&file.rel_path);
+                        let scope_dir = scope_dir_from_path(path_in_package);
                         let help = format!(
                             "Defined at {path}:{line}:{col} but never called in {scope_dir}",
                             path = file.rel_path.display()
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 700b809..136757a 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -108,7 +108,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
+    let mut extra_files: Vec<(PathBuf, &Path)> = Vec::new();
     let mut excluded_r_files: Vec<PathBuf> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
@@ -143,13 +143,15 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
             for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    let files = collect_files(&dir, has_r_extension);
+                    extra_files.extend(files.into_iter().map(|file| (file, root.as_path())));
                 }
             }
             // Collect C/C++ files in src/
             let src_dir = root.join("src");
             if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
+                let files = collect_files(&src_dir, has_cpp_extension);
+                extra_files.extend(files.into_iter().map(|file| (file, root.as_path())));
             }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
@@ -158,10 +160,11 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         }
     }
 
-    // Build the list of all files to scan in parallel, each tagged with its scope.
-    let all_files: Vec<(&Path, FileScope)> = r_dir_files
+    // Build the list of all files to scan in parallel, each tagged with its
+    // scope. Extra files also come with the root of their package.
+    let all_files: Vec<(&Path, FileScope, Option<&Path>)> = r_dir_files
         .iter()
-        .map(|p| (p.as_path(), FileScope::R))
+        .map(|p| (p.as_path(), FileScope::R, None))
         .chain(excluded_r_files.iter().map(|p| {
             // Files in subdirectories of R/ (e.g. R/unix/) may use functions
             // defined in R/, but their own definitions are not checked.
@@ -171,11 +174,11 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
             } else {
                 FileScope::Src
             };
-            (p.as_path(), scope)
+            (p.as_path(), scope, None)
         }))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
+        .chain(extra_files.iter().map(|(p, root)| {
+            let scope = file_scope_from_path(p.strip_prefix(root).unwrap_or(p));
+            (p.as_path(), scope, Some(*root))
         }))
         .collect();
 
@@ -183,7 +186,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // scan_top_level_assignments; Src files only get scan_symbols.
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
-        .filter_map(|(path, scope)| {
+        .filter_map(|(path, scope, root)| {
             // Files that are not encoded in UTF-8 may still use functions.
             let content = std::fs::read(path).ok()?;
             let content = String::from_utf8_lossy(&content);
@@ -196,8 +199,14 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 scan_symbols(&content)
             };
 
+            // Files in a nested package (e.g. a fixture in tests/) may use
+            // functions of this package, but their own definitions belong to
+            // the nested package.
+            let in_nested_package =
+                root.is_some_and(|root| find_package_root(path).as_deref() != Some(root));
             let assignments = match scope {
                 FileScope::Src => Vec::new(),
+                _ if in_nested_package => Vec::new(),
                 _ => scan_top_level_assignments(&content),
             };
 
@@ -215,9 +224,13 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                     scope: FileScope::R,
                 })
             } else {
-                // Extra file: figure out the package root. The file is
-                // somewhere under root/tests/, root/inst/, or root/src/.
-                let package_root = find_package_root(path)?;
+                // Extra file: the file is somewhere under root/tests/,
+                // root/inst/, or root/src/. Otherwise, it is in a subdirectory
+                // of R/, so figure out the package root.
+                let package_root = match root {
+                    Some(root) => root.to_path_buf(),
+                    None => find_package_root(path)?,
+                };
                 let r_dir = package_root.join("R");
                 let rel_path = PathBuf::from(crate::fs::relativize_path(path));
                 let root_key = crate::fs::relativize_path(&r_dir);
@@ -252,7 +265,8 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
-/// Determine the `FileScope` for a non-R/ file based on its path.
+/// Determine the `FileScope` for a non-R/ file based on its path (relative to
+/// the package root).
 fn file_scope_from_path(path: &Path) -> FileScope {
     let components: Vec<_> = path
         .components()
-- 
2.43.0


From a2fb805975b44b090678974e5331a722de8626f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 49/65] fix: consider S3 generics used anywhere in the package
 in unused_function

---
 .../base/unused_function/unused_function.rs   | 45 ++++++++++++-------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 78709fc..57a7bd3 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -249,6 +249,19 @@ fn scope_dir_from_path(rel_path: &Path) -> String {
     "tests/".to_string()
 }
 
+/// Check if a function may be an S3 method.
+///
+/// If a function name contains a dot, it may be an S3 method dispatched
+/// implicitly (e.g. `print.myclass` is called when `print()` runs on an object
+/// of class "myclass"). Since class names can contain dots (e.g. `data.table`),
+/// we try every split point: for `sort_by.data.table` we check if `sort_by` or
+/// `sort_by.data` appears as a symbol in the package. If any prefix matches,
+/// assume it could be S3 dispatch.
+fn is_probable_s3_method(name: &str, all_symbols: &HashSet<&str>) -> bool {
+    name.match_indices('.')
+        .any(|(pos, _)| all_symbols.contains(&name[..pos]))
+}
+
 /// Compute unused functions from pre-scanned shared file data.
 ///
 /// This is the inner logic extracted from `compute_package_unused_functions`,
@@ -342,8 +355,12 @@ pub(crate) fn compute_unused_from_shared(
             ".First.lib",
         ]);
 
-        // All symbols across R/ files (used for S3 method heuristic).
-        let all_symbols: HashSet<&str> = total_occurrences.keys().copied().collect();
+        // All symbols across the package (used for S3 method heuristic).
+        let all_symbols: HashSet<&str> = total_occurrences
+            .keys()
+            .copied()
+            .chain(extra_symbol_set.iter().copied())
+            .collect();
 
         for file in &r_files {
             let mut unused: Vec<(String, TextRange, String)> = Vec::new();
@@ -364,21 +381,9 @@ pub(crate) fn compute_unused_from_shared(
                     continue;
                 }
 
-                // Skip probable internal S3 methods. If a function name
-                // contains a dot, it may be an S3 method dispatched implicitly
-                // (e.g. `print.myclass` is called when `print()` runs on an
-                // object of class "myclass"). Since class names can contain
-                // dots (e.g. `data.table`), we try every split point: for
-                // `sort_by.data.table` we check if `sort_by` or `sort_by.data`
-                // appears as a symbol in the package. If any prefix matches,
-                // assume it could be S3 dispatch and skip.
-                if name.contains('.') {
-                    let is_probable_s3 = name
-                        .match_indices('.')
-                        .any(|(pos, _)| all_symbols.contains(&name[..pos]));
-                    if is_probable_s3 {
-                        continue;
-                    }
+                // Skip probable internal S3 methods.
+                if is_probable_s3_method(name, &all_symbols) {
+                    continue;
                 }
 
                 // A definition contributes exactly one occurrence to
@@ -436,6 +441,12 @@ pub(crate) fn compute_unused_from_shared(
                         continue;
                     }
 
+                    // Skip probable S3 methods, the generic may be used
+                    // anywhere in the package.
+                    if is_probable_s3_method(name, &all_symbols) {
+                        continue;
+                    }
+
                     let occurrences = scope_occurrences.get(name.as_str()).copied().unwrap_or(0);
                     let definitions = scope_definitions.get(name.as_str()).copied().unwrap_or(0);
 
-- 
2.43.0


From af40bdf46723eee49ca212c8a583af49a88db596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:32 +0000
Subject: [PATCH 50/65] fix: `return` without a call doesn't make the code
 after it unreachable

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5cc506..e1caccc 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -239,10 +239,6 @@ impl<'a> CfgBuilder<'a> {
                 self.build_next(current, stmt.clone());
                 current
             }
-            RSyntaxKind::R_RETURN_EXPRESSION => {
-                self.build_return(current, stmt.clone());
-                current
-            }
             RSyntaxKind::R_IF_STATEMENT => {
                 if let Some(if_stmt) = RIfStatement::cast_ref(stmt) {
                     self.build_if_statement(&if_stmt, current, exit)
-- 
2.43.0


From abc4dc11d188c8ddab094550c1727449abfbd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:01 +0000
Subject: [PATCH 51/65] fix: dead branches are reported as such whatever
 follows them

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs | 2 ++
 .../jarl-core/src/lints/base/unreachable_code/cfg/graph.rs   | 3 +++
 .../src/lints/base/unreachable_code/cfg/reachability.rs      | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index e1caccc..d5b944c 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -340,6 +340,7 @@ impl<'a> CfgBuilder<'a> {
                     // but not connecting it from current
                     if let Some(else_b) = self.cfg.block_mut(else_block) {
                         else_b.predecessors.push(current);
+                        else_b.is_dead_branch = true;
                     }
                 }
                 Some(false) => {
@@ -348,6 +349,7 @@ impl<'a> CfgBuilder<'a> {
                     // Mark then_block as unreachable
                     if let Some(then_b) = self.cfg.block_mut(then_block) {
                         then_b.predecessors.push(current);
+                        then_b.is_dead_branch = true;
                     }
                 }
                 None => {
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
index 60d5660..8cd0326 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
@@ -25,6 +25,8 @@ pub struct BasicBlock {
     pub terminator: Terminator,
     /// Text range covering this block (for diagnostics)
     pub range: Option<TextRange>,
+    /// Is this a branch that is never taken because of a constant condition?
+    pub is_dead_branch: bool,
 }
 
 impl BasicBlock {
@@ -36,6 +38,7 @@ impl BasicBlock {
             predecessors: Vec::new(),
             terminator: Terminator::None,
             range: None,
+            is_dead_branch: false,
         }
     }
 }
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
index 97bd3c1..e807896 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
@@ -145,6 +145,11 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
 
     // Check the block's predecessors to find what terminator caused unreachability
     if let Some(block) = cfg.block(block_id) {
+        // What comes after a dead branch doesn't matter
+        if block.is_dead_branch {
+            return UnreachableReason::DeadBranch;
+        }
+
         // Priority 1: Check for terminators (return/break/next) - these take priority
         for &pred_id in &block.predecessors {
             if let Some(pred_block) = cfg.block(pred_id) {
-- 
2.43.0


From 1fecadfec5f7c10519b80b75277e3e68c7d81a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 52/65] fix: code after `if (TRUE)` with a terminating branch
 and no else is unreachable

---
 crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5b944c..e9dc494 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -425,7 +425,7 @@ impl<'a> CfgBuilder<'a> {
                     }
                 }
             }
-        } else {
+        } else if constant_value != Some(true) {
             // No else branch, just connect to after_if
             if let Some(b) = self.cfg.block_mut(else_block) {
                 b.terminator = Terminator::Goto;
-- 
2.43.0


From 6eb861d1152d476742a0894927b99796381430cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 53/65] fix: code after an if/else that leaves a loop either
 way isn't in a dead branch

---
 .../lints/base/unreachable_code/cfg/reachability.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
index e807896..89687f9 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
@@ -136,9 +136,10 @@ pub fn find_unreachable_code(cfg: &ControlFlowGraph) -> Vec<UnreachableCodeInfo>
 /// Determine why a block is unreachable by examining its context
 ///
 /// Priority order:
+/// 0. Check if it's a dead branch (because of a constant condition)
 /// 1. Check if a predecessor has a terminator (return/break/next)
 /// 2. Check if predecessor is a branch where all successors terminate (if/else with returns in all branches)
-/// 3. Check if it's a dead branch (has predecessor pointer but no actual edge)
+/// 3. Check if it comes after another if/else (has predecessor pointer but no actual edge)
 /// 4. Default to NoPathFromEntry
 fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> UnreachableReason {
     use super::graph::Terminator;
@@ -176,9 +177,9 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
             }
         }
 
-        // Priority 3: Check if it's a dead branch from a constant condition
-        // Dead branches have a predecessor pointer (for tracking) but no actual CFG edge
-        // This happens when we detect `if (TRUE)` or `if (FALSE)` during CFG construction
+        // Priority 3: Check if it comes after an if/else whose branches end in
+        // other ways (e.g. both leave a loop, or the code before a return has
+        // loops). It then has a predecessor pointer but no actual CFG edge.
         if !block.predecessors.is_empty() {
             let has_incoming_edge = block.predecessors.iter().any(|&pred_id| {
                 cfg.block(pred_id)
@@ -187,8 +188,7 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
             });
 
             if !has_incoming_edge {
-                // Has predecessor but no actual edge - this is a dead branch from a constant condition
-                return UnreachableReason::DeadBranch;
+                return UnreachableReason::AfterBranchTerminating;
             }
         }
     }
-- 
2.43.0


From 21a24442f00b815a13f95dc5823320187c24fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:28 +0000
Subject: [PATCH 54/65] fix: the language server counts unused functions as the
 CLI does

---
 crates/jarl-lsp/src/lint.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..4b7b323 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -16,11 +16,11 @@ use crate::utils::should_exclude_file_based_on_settings;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
-use jarl_core::config::{ArgsConfig, build_config};
+use jarl_core::config::{ArgsConfig, Config, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings};
-use jarl_core::fs::{has_r_extension, relativize_path};
-use jarl_core::package::{compute_package_analysis, is_in_r_package};
+use jarl_core::fs::{has_r_extension, normalize_path, relativize_path};
+use jarl_core::package::{PackageAnalysis, compute_package_analysis, is_in_r_package};
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -163,7 +163,6 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
         if explicitly_selected {
             0
         } else {
-            let total_unused: usize = pkg.unused_functions.values().map(|v| v.len()).sum();
             let threshold = resolver
                 .items()
                 .iter()
@@ -177,6 +176,12 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
                 .min()
                 .unwrap_or(50);
 
+            // Only go through the other files if this might make a difference.
+            let mut total_unused: usize = pkg.unused_functions.values().map(|v| v.len()).sum();
+            if total_unused > threshold {
+                total_unused = count_unused_functions(&pkg, &config, &resolver);
+            }
+
             if total_unused > threshold {
                 diagnostics.retain(|d| d.message.name != "unused_function");
                 total_unused
@@ -190,6 +195,27 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count })
 }
 
+/// Count the unused functions that the CLI would report in the whole package,
+/// i.e. neither those in excluded files nor those that are suppressed.
+fn count_unused_functions(
+    pkg: &PackageAnalysis,
+    config: &Config,
+    resolver: &PathResolver<Settings>,
+) -> usize {
+    pkg.unused_functions
+        .keys()
+        .filter(|rel_path| {
+            !should_exclude_file_based_on_settings(&normalize_path(rel_path), resolver)
+        })
+        .filter_map(|rel_path| {
+            let content = std::fs::read_to_string(rel_path).ok()?;
+            get_checks(&content, rel_path, config, pkg).ok()
+        })
+        .flatten()
+        .filter(|d| d.message.name == "unused_function")
+        .count()
+}
+
 /// If `file_path` lives inside an R package's `R/` directory, return all
 /// `.R` files in that directory. Returns `None` otherwise.
 fn collect_sibling_r_files(file_path: &Path) -> Option<Vec<PathBuf>> {
-- 
2.43.0


From 6a02419a77476c41a2fa279ae815bb5054564b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 55/65] fix: locate the diagnostics about packages after
 fixing, not while fixing

---
 crates/jarl-core/src/check.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 77ab87f..f4fe62e 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -50,10 +50,18 @@ pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, a
 }
 
 fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    let fix = config.apply_fixes || config.apply_unsafe_fixes;
 
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
+
+    // Applying fixes moves the code, so the diagnostics that come from the
+    // package analysis can only be located once all files are fixed.
+    let pkg = if fix {
+        PackageAnalysis::default()
+    } else {
+        compute_package_analysis(&config.paths, &config)
+    };
     let pkg = Arc::new(pkg);
 
     let results: Vec<_> = config
@@ -62,14 +70,15 @@ fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::
         .map(|file| check_path(file, Arc::clone(&config), Arc::clone(&pkg)))
         .collect();
 
-    // Applying fixes moves the code, so the diagnostics that come from the
-    // package analysis have to be located again.
-    let has_pkg_diagnostics =
-        !pkg.duplicate_assignments.is_empty() || !pkg.unused_functions.is_empty();
-    let pkg = if has_pkg_diagnostics && (config.apply_fixes || config.apply_unsafe_fixes) {
-        Some(Arc::new(compute_package_analysis(&config.paths, &config)))
+    let pkg = if fix {
+        compute_package_analysis(&config.paths, &config)
     } else {
+        PackageAnalysis::default()
+    };
+    let pkg = if pkg.duplicate_assignments.is_empty() && pkg.unused_functions.is_empty() {
         None
+    } else {
+        Some(Arc::new(pkg))
     };
 
     config
-- 
2.43.0


From ddc3881265e9bf00e83eee75f89afe0fb35e822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 56/65] fix: comments around a block are not at the nesting
 level inside it

---
 crates/jarl-core/src/suppression.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 96a7ee0..345f15d 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -348,6 +348,14 @@ impl SuppressionManager {
             }
         }
 
+        // Increment nesting level when entering braced expressions (function bodies, etc.).
+        // The comments before and after the braces are not in there.
+        let inner_nesting_level = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            nesting_level + 1
+        } else {
+            nesting_level
+        };
+
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -357,19 +365,13 @@ impl SuppressionManager {
                 collector,
                 false,
                 Self::is_same_line_as_code(comment.piece().text_range(), source),
-                nesting_level,
+                inner_nesting_level,
             );
         }
 
         // Recursively process children
-        // Increment nesting level when entering braced expressions (function bodies, etc.)
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                nesting_level + 1
-            } else {
-                nesting_level
-            };
             Self::collect_all_directives(
                 &child,
                 comments,
@@ -377,7 +379,7 @@ impl SuppressionManager {
                 // No code before, such as an opening parenthesis
                 is_first && child.text_trimmed_range().start() == node_range.start(),
                 source,
-                child_nesting,
+                inner_nesting_level,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
-- 
2.43.0


From a08d9c99cddb91480dcb16ef50d7730a59905710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:27 +0000
Subject: [PATCH 57/65] fix: files that share a configuration do not consult
 the user's own

Looking up the configuration of a path stops at a directory that was looked
at for an earlier path. Nothing was taken to be found then, so that a second
file below the same jarl.toml brought in the configuration in the user's
config directory: if that one is invalid the run failed, and the note about
the configuration in use was not shown.
---
 crates/jarl-core/src/discovery.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index dd470f8..73628f5 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -75,7 +75,7 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
     let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
 
     let mut seen = FxHashSet::default();
-    let mut discovered_settings = Vec::with_capacity(paths.len());
+    let mut discovered_settings: Vec<DiscoveredSettings> = Vec::with_capacity(paths.len());
     let user_config_dir = get_user_config_dir();
 
     // Discover all `Settings` across all `paths`, looking up each path's directory tree
@@ -86,7 +86,11 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
             let is_new_ancestor = seen.insert(ancestor);
 
             if !is_new_ancestor {
-                // We already visited this ancestor, we can stop here.
+                // We already visited this ancestor, we can stop here. What was
+                // found then may hold for this path as well.
+                found_config = discovered_settings
+                    .iter()
+                    .any(|ds| path.starts_with(&ds.directory));
                 break;
             }
 
-- 
2.43.0


From 0858324dd2df08fb5b1516f5a5f517026333cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:28 +0000
Subject: [PATCH 58/65] fix: bring the published schema in line with the
 settings that are accepted

---
 artifacts/jarl.schema.json                    | 233 +++++++++++++++++-
 .../jarl-core/src/rule_options/assignment.rs  |   1 +
 crates/jarl-core/src/toml.rs                  |   1 +
 3 files changed, 231 insertions(+), 4 deletions(-)

diff --git a/artifacts/jarl.schema.json b/artifacts/jarl.schema.json
index 19daacd..56fe9ff 100644
--- a/artifacts/jarl.schema.json
+++ b/artifacts/jarl.schema.json
@@ -16,16 +16,96 @@
   },
   "additionalProperties": false,
   "$defs": {
-    "LinterTomlOptions": {
+    "AssignmentConfig": {
+      "description": "Accepts either the legacy top-level string (`assignment = \"<-\"`) or the new\ntable form (`[lint.assignment]` with an `operator` field).\n\nTOML doesn't allow a key to be both a string and a table, but by trying the\ntable form first we can surface clear errors (like \"unknown field\") while\nstill falling back to the legacy string form.",
+      "anyOf": [
+        {
+          "description": "Legacy: `assignment = \"<-\"` (deprecated)",
+          "type": "string"
+        },
+        {
+          "description": "New: `[lint.assignment]` table with fields",
+          "$ref": "#/$defs/AssignmentOptions"
+        }
+      ]
+    },
+    "AssignmentOptions": {
+      "description": "TOML options for `[lint.assignment]`.\n\nUse `operator` to specify which assignment operator to enforce.\nValid values are `\"<-\"` (the default) and `\"=\"`.",
       "type": "object",
       "properties": {
-        "assignment": {
-          "title": "Assignment operator to use",
-          "description": "This can be either `\"<-\"` or `\"=\"`. Both are valid in R, so this\noption is useful to ensure consistency in a project.",
+        "operator": {
           "type": [
             "string",
             "null"
           ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "DuplicatedArgumentsOptions": {
+      "description": "TOML options for `[lint.duplicated_arguments]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "ImplicitAssignmentOptions": {
+      "description": "TOML options for `[lint.implicit_assignment]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nwhere implicit assignments are allowed. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "LinterTomlOptions": {
+      "type": "object",
+      "properties": {
+        "assignment": {
+          "title": "Assignment operator to use",
+          "description": "Accepts either the legacy form `assignment = \"<-\"` (deprecated) or the\nnew table form `[lint.assignment]` with an `operator` field.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/AssignmentConfig"
+            },
+            {
+              "type": "null"
+            }
+          ]
         },
         "default-exclude": {
           "title": "Whether or not to use default exclude patterns",
@@ -35,6 +115,18 @@
             "null"
           ]
         },
+        "duplicated_arguments": {
+          "title": "Options for the `duplicated_arguments` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/DuplicatedArgumentsOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "exclude": {
           "title": "Patterns to exclude from checking",
           "description": "By default, jarl will refuse to check files matched by patterns listed in\n`default-exclude`. Use this option to supply an additional list of exclude\npatterns.\n\nExclude patterns are modeled after what you can provide in a\n[.gitignore](https://git-scm.com/docs/gitignore), and are resolved relative to the\nparent directory that your `jarl.toml` is contained within. For example, if your\n`jarl.toml` was located at `root/jarl.toml`, then:\n\n- `file.R` excludes a file named `file.R` located anywhere below `root/`. This is\n  equivalent to `**/file.R`.\n\n- `folder/` excludes a directory named `folder` (and all of its children) located\n  anywhere below `root/`. You can also just use `folder`, but this would\n  technically also match a file named `folder`, so the trailing slash is preferred\n  when targeting directories. This is equivalent to `**/folder/`.\n\n- `/file.R` excludes a file named `file.R` located at `root/file.R`.\n\n- `/folder/` excludes a directory named `folder` (and all of its children) located\n  at `root/folder/`.\n\n- `file-*.R` excludes R files named like `file-this.R` and `file-that.R` located\n  anywhere below `root/`.\n\n- `folder/*.R` excludes all R files located at `root/folder/`. Note that R files\n  in directories under `folder/` are not excluded in this case (such as\n  `root/folder/subfolder/file.R`).\n\n- `folder/**/*.R` excludes all R files located anywhere below `root/folder/`.\n\n- `**/folder/*.R` excludes all R files located directly inside a `folder/`\n  directory, where the `folder/` directory itself can appear anywhere.\n\nSee the full [.gitignore](https://git-scm.com/docs/gitignore) documentation for\nall of the patterns you can provide.",
@@ -79,6 +171,29 @@
             "type": "string"
           }
         },
+        "implicit_assignment": {
+          "title": "Options for the `implicit_assignment` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to contain implicit assignment. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/ImplicitAssignmentOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "include": {
+          "title": "Patterns to include in checking",
+          "description": "By default, jarl checks all files with a `.R`, `.qmd`, `.Rmd`, or `.rmd`\nextension discovered in the provided paths. Use this option to restrict\nchecking to files that match at least one of the supplied patterns. An\nempty list or a missing option means no restriction, i.e. all discovered\nfiles are checked.\n\nInclude patterns follow the same format as `exclude` patterns (gitignore\nstyle, resolved relative to the `jarl.toml` directory). For example:\n\n- `R/` only checks files inside the `R/` directory.\n\n- `test-*.R` only checks files whose name matches `test-*.R`.\n\n- `**/*.{Rmd,qmd}` only checks Rmd and qmd files.\n\nWhen both `include` and `exclude` are specified, a file is checked only\nif it matches at least one `include` pattern and does not match any\n`exclude` pattern.",
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
         "select": {
           "title": "Rules to select",
           "description": "If this is empty, then all rules that are provided by `jarl` are used,\nwith one limitation related to the minimum R version used in the project.\nBy default, if this minimum R version is unknown, then all rules that\nhave a version restriction are deactivated. This is for example the case\nof `grepv` since the eponymous function was introduced in R 4.5.0.\n\nThere are three ways to inform `jarl` about the minimum version used in\nthe project:\n1. pass the argument `--min-r-version` in the CLI, e.g.,\n   `jarl --min-r-version 4.3`;\n2. if the project is an R package, then `jarl` looks for mentions of a\n   minimum R version in the `Depends` field sometimes present in the\n   `DESCRIPTION` file.\n3. specify `min-r-version` in `jarl.toml`.",
@@ -90,6 +205,18 @@
             "type": "string"
           }
         },
+        "undesirable_function": {
+          "title": "Options for the `undesirable_function` rule",
+          "description": "Use `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UndesirableFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "unfixable": {
           "title": "Rule violations to never fix",
           "description": "A list of rules that are never fixed. This only matters if you pass\n`--fix` in the CLI.",
@@ -100,6 +227,104 @@
           "items": {
             "type": "string"
           }
+        },
+        "unreachable_code": {
+          "title": "Options for the `unreachable_code` rule",
+          "description": "Use `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnreachableCodeOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "unused_function": {
+          "title": "Options for the `unused_function` rule",
+          "description": "Use `threshold-ignore` to control how many `unused_function`\nviolations are allowed before they are all hidden (likely false\npositives).\n\nUse `skipped-functions` to determine which functions won't be reported\neven if Jarl considers them unused.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnusedFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "UndesirableFunctionOptions": {
+      "description": "TOML options for `[lint.undesirable_function]`.\n\nUse `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnreachableCodeOptions": {
+      "description": "TOML options for `[lint.unreachable_code]`.\n\nUse `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnusedFunctionOptions": {
+      "description": "TOML options for `[lint.unused_function]`.\n\nUse `threshold-ignore` to control when `unused_function`\ndiagnostics are hidden. When the number of violations exceeds this\nthreshold, they are suppressed with an informative note (likely false\npositives).\n\nUse `skipped-functions` to provide a list of regex patterns for\nfunctions that should be skipped by this rule.",
+      "type": "object",
+      "properties": {
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "threshold-ignore": {
+          "type": [
+            "integer",
+            "null"
+          ],
+          "format": "uint",
+          "minimum": 0
         }
       },
       "additionalProperties": false
diff --git a/crates/jarl-core/src/rule_options/assignment.rs b/crates/jarl-core/src/rule_options/assignment.rs
index 40a2871..b072273 100644
--- a/crates/jarl-core/src/rule_options/assignment.rs
+++ b/crates/jarl-core/src/rule_options/assignment.rs
@@ -20,6 +20,7 @@ pub struct AssignmentOptions {
 /// still falling back to the legacy string form.
 #[derive(Clone, Debug, PartialEq, Eq)]
 #[cfg_attr(feature = "schemars", derive(schemars::JsonSchema))]
+#[cfg_attr(feature = "schemars", schemars(untagged))]
 pub enum AssignmentConfig {
     /// Legacy: `assignment = "<-"` (deprecated)
     Legacy(String),
diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 038e95d..b10e3d3 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -70,6 +70,7 @@ pub struct GlobalTomlOptions {}
 
 #[derive(Clone, Debug, Default, serde::Deserialize)]
 #[cfg_attr(feature = "schemars", derive(schemars::JsonSchema))]
+#[cfg_attr(feature = "schemars", schemars(deny_unknown_fields))]
 #[serde(rename_all = "kebab-case")]
 pub struct LinterTomlOptions {
     /// # Rules to select
-- 
2.43.0


From e3a04e143d25f2e68aa9ddce8c22e41610dee354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:28 +0000
Subject: [PATCH 59/65] fix: don't report success when --add-jarl-ignore
 couldn't treat a file

---
 crates/jarl/src/commands/check.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 86153f1..e943789 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -314,6 +314,7 @@ fn add_jarl_ignore_comments(
 
     let mut total_suppressions = 0;
     let mut files_modified = 0;
+    let mut status = ExitStatus::Success;
 
     // Group diagnostics by file path (use BTreeMap for deterministic order)
     let mut by_file: BTreeMap<&str, Vec<&Diagnostic>> = BTreeMap::new();
@@ -333,6 +334,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
                 continue;
             }
         };
@@ -422,6 +424,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
             }
         }
     }
@@ -441,7 +444,7 @@ fn add_jarl_ignore_comments(
         println!("\nUsed '{}'", config_path.display());
     }
 
-    Ok(ExitStatus::Success)
+    Ok(status)
 }
 
 /// Hide `unused_function` diagnostics when they exceed the configured
-- 
2.43.0


From 1972ff239ad3c2072311f95bcc31d27fe62cc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 60/65] fix: recognise a named argument when a comment follows
 its name

---
 crates/jarl-core/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 2e94254..c20db5a 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -123,7 +123,7 @@ pub fn get_arg_by_name(args: &RArgumentList, name: &str) -> Option<RArgument> {
             let name_clause = x.clone().unwrap().name_clause();
             if let Some(name_clause) = name_clause {
                 match name_clause.name() {
-                    Ok(name_clause) => name_clause.to_string().trim() == name,
+                    Ok(name_clause) => name_clause.to_trimmed_string() == name,
                     _ => false,
                 }
             } else {
@@ -174,8 +174,8 @@ pub fn match_args(args: &RArgumentList, params: &[&str]) -> Option<Vec<Option<RA
     let mut matched: Vec<Option<RArgument>> = vec![None; params.len()];
 
     for arg in get_named_args(args) {
-        let name = arg.name_clause()?.name().ok()?.to_string();
-        let position = params.iter().position(|param| *param == name.trim())?;
+        let name = arg.name_clause()?.name().ok()?.to_trimmed_string();
+        let position = params.iter().position(|param| *param == name)?;
         if matched[position].is_some() {
             return None;
         }
@@ -205,7 +205,7 @@ pub fn drop_arg_by_name_or_position(
             let arg = arg.clone().unwrap();
             if let Some(name_clause) = arg.name_clause()
                 && let Ok(n) = name_clause.name()
-                && n.to_string().trim() == name
+                && n.to_trimmed_string() == name
             {
                 dropped_by_name = true;
                 return None;
-- 
2.43.0


From 6fc6266fa6ddc12204efe70cc81af13a33da62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 61/65] fix: compare pieces of code regardless of their layout

---
 .../src/lints/base/coalesce/coalesce.rs       |  7 +++---
 .../src/lints/base/is_numeric/is_numeric.rs   |  6 ++---
 crates/jarl-core/src/lints/base/sort/sort.rs  |  4 +++-
 .../base/string_boundary/string_boundary.rs   |  3 ++-
 crates/jarl-core/src/utils_ast.rs             | 22 ++++++++++++++++++-
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index afddc75..2e7415c 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils_ast::is_same_code;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
 
@@ -109,8 +110,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         let alternative = extract_single_expression(&alternative);
         let consequence = extract_single_expression(&consequence);
 
-        let inside_null_same_as_alternative =
-            fn_body.to_trimmed_string() == alternative.to_trimmed_string();
+        let inside_null_same_as_alternative = is_same_code(fn_body.syntax(), alternative.syntax());
 
         if !inside_null_same_as_alternative {
             return Ok(None);
@@ -160,8 +160,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         let consequence = extract_single_expression(&consequence);
         let alternative = extract_single_expression(&alternative);
 
-        let inside_null_same_as_consequence =
-            fn_body.to_trimmed_string() == consequence.to_trimmed_string();
+        let inside_null_same_as_consequence = is_same_code(fn_body.syntax(), consequence.syntax());
 
         if !inside_null_same_as_consequence {
             return Ok(None);
diff --git a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
index 98c7809..9b34d12 100644
--- a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
+++ b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::node_contains_comments;
+use crate::utils_ast::is_same_code;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -76,11 +77,10 @@ pub fn is_numeric(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
 
     // Early return: LHS and RHS args are not the same (e.g.
     // `is.numeric(x) || is.integer(y)`).
-    let left_arg = arg_left.into_syntax().text_trimmed();
-    let right_arg = arg_right.into_syntax().text_trimmed();
-    if left_arg != right_arg {
+    if !is_same_code(arg_left.syntax(), arg_right.syntax()) {
         return Ok(None);
     };
+    let left_arg = arg_left.into_syntax().text_trimmed();
 
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index 2e71b12..0162580 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
+use crate::utils_ast::is_same_code;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -85,7 +86,8 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
     }
     // Safety: we know that `values` contains a single element.
     let values = values.first().unwrap();
-    if values.to_trimmed_text() != function_outer.to_trimmed_text() {
+    let value = unwrap_or_return_none!(values.value());
+    if !is_same_code(value.syntax(), function_outer.syntax()) {
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index fc4e547..f968156 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, match_args, node_contains_comments};
+use crate::utils_ast::is_same_code;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -207,5 +208,5 @@ fn is_nchar_of_same_expr(end_expr: &AnyRExpression, x_expr: &AnyRExpression) ->
 
 /// Check if two expressions are syntactically identical
 fn expressions_match(expr1: &AnyRExpression, expr2: &AnyRExpression) -> bool {
-    expr1.syntax().text_trimmed() == expr2.syntax().text_trimmed()
+    is_same_code(expr1.syntax(), expr2.syntax())
 }
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index f1530c7..e9c9f49 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -3,7 +3,7 @@
 use crate::diagnostic::Fix;
 use air_r_parser::RParserOptions;
 use air_r_syntax::*;
-use biome_rowan::{AstNode, NodeOrToken, TextRange, TextSize};
+use biome_rowan::{AstNode, Direction, NodeOrToken, TextRange, TextSize};
 
 /// Extension trait for R AST nodes providing common parent and sibling checks.
 pub trait AstNodeExt: AstNode<Language = RLanguage> {
@@ -92,6 +92,26 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
 // Blanket implementation for all R AST node types
 impl<T> AstNodeExt for T where T: AstNode<Language = RLanguage> {}
 
+/// Whether two pieces of code are the same, regardless of the spaces, line breaks
+/// and comments between their tokens.
+pub fn is_same_code(left: &RSyntaxNode, right: &RSyntaxNode) -> bool {
+    let mut left = left.descendants_with_tokens(Direction::Next);
+    let mut right = right.descendants_with_tokens(Direction::Next);
+    loop {
+        let same = match (left.next(), right.next()) {
+            (None, None) => return true,
+            (Some(NodeOrToken::Node(x)), Some(NodeOrToken::Node(y))) => x.kind() == y.kind(),
+            (Some(NodeOrToken::Token(x)), Some(NodeOrToken::Token(y))) => {
+                x.text_trimmed() == y.text_trimmed()
+            }
+            _ => false,
+        };
+        if !same {
+            return false;
+        }
+    }
+}
+
 /// Wraps the content of a fix in parentheses if it would otherwise be torn
 /// apart by the code around it, e.g. because the fix has an operator that binds
 /// less tightly than the operator next to it:
-- 
2.43.0


From bb6a3d819fea501ea5008eefcfc0572d3ab69dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:48 +0000
Subject: [PATCH 62/65] fix: recognise pkg::stop() when the package and the
 function are apart

---
 .../src/lints/base/unreachable_code/cfg/builder.rs   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index e9dc494..e61e825 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -273,11 +273,15 @@ impl<'a> CfgBuilder<'a> {
             }
             RSyntaxKind::R_CALL => {
                 // Check if this is a return, break, or next call
-                let full_name = stmt.first_child().unwrap().text_trimmed().to_string();
+                let function = stmt.first_child().unwrap();
+                let full_name = function.text_trimmed().to_string();
                 // Strip namespace prefix: "rlang::abort" -> "abort", "stop" -> "stop"
-                let fun_name = full_name
-                    .rsplit_once("::")
-                    .map_or(full_name.as_str(), |(_, name)| name);
+                let name_token = function
+                    .last_token()
+                    .filter(|_| function.kind() == RSyntaxKind::R_NAMESPACE_EXPRESSION);
+                let fun_name = name_token
+                    .as_ref()
+                    .map_or(full_name.as_str(), |name| name.text_trimmed());
                 if fun_name == "return" {
                     self.build_return(current, stmt.clone());
                     current
-- 
2.43.0


From ecb8e58e3d8ac93ddde92ac7d544237c956cecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:48 +0000
Subject: [PATCH 63/65] fix: keep the meaning of a loop's body when it is put
 in braces

---
 .../jarl-core/src/lints/base/repeat/repeat.rs |  4 ++--
 crates/jarl-core/src/utils_ast.rs             | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/repeat/repeat.rs b/crates/jarl-core/src/lints/base/repeat/repeat.rs
index 75f4998..a425c81 100644
--- a/crates/jarl-core/src/lints/base/repeat/repeat.rs
+++ b/crates/jarl-core/src/lints/base/repeat/repeat.rs
@@ -1,4 +1,4 @@
-use crate::{diagnostic::*, utils::node_contains_comments};
+use crate::{diagnostic::*, utils::node_contains_comments, utils_ast::as_braced_text};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -52,7 +52,7 @@ pub fn repeat(ast: &RWhileStatement) -> anyhow::Result<Option<Diagnostic>> {
         let fix_content = if is_braced {
             format!("{body_text}")
         } else {
-            format!("{{ {body_text} }}")
+            format!("{{ {} }}", as_braced_text(&body))
         };
 
         let range = ast.syntax().text_trimmed_range();
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index e9c9f49..0aa3850 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -112,6 +112,25 @@ pub fn is_same_code(left: &RSyntaxNode, right: &RSyntaxNode) -> bool {
     }
 }
 
+/// Gives the text of an expression so that it can be put in braces. Line breaks in
+/// an expression are ignored between parentheses but end the expression between
+/// braces:
+///
+/// `f(x\n+ 1)` -> `{ x\n+ 1 }` would be two expressions.
+pub fn as_braced_text(expr: &AnyRExpression) -> String {
+    let text = expr.to_trimmed_string();
+    let in_braces = format!("{{{text}}}");
+    let parsed = air_r_parser::parse(&in_braces, RParserOptions::default());
+    let is_unchanged = expression_at(&parsed.syntax(), to_text_range(1, 1 + text.len()))
+        .is_some_and(|x| is_same_code(&x, expr.syntax()));
+
+    if is_unchanged {
+        text
+    } else {
+        format!("({text})")
+    }
+}
+
 /// Wraps the content of a fix in parentheses if it would otherwise be torn
 /// apart by the code around it, e.g. because the fix has an operator that binds
 /// less tightly than the operator next to it:
-- 
2.43.0


From 6bb33bb791db9d3179423efb4ee17f78c8d7e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:57 +0000
Subject: [PATCH 64/65] fix: don't report leftover violations with --fix-only

---
 crates/jarl/src/commands/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index e943789..bced528 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -150,6 +150,12 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         });
     }
 
+    // Some violations can't be fixed although their rule has a fix, e.g. because
+    // they contain comments.
+    if args.fix_only {
+        all_diagnostics.clear();
+    }
+
     let (unused_fn_hidden, unused_fn_count) =
         hide_unused_function_if_needed(&mut all_diagnostics, &args, &resolver);
 
-- 
2.43.0


From d39c5950ccf499eb20e74247f113f498e8472ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:20 +0000
Subject: [PATCH 65/65] fix: don't panic when the output can't be written

---
 crates/jarl/src/commands/check.rs | 16 ++++++++--------
 crates/jarl/src/lib.rs            | 17 ++++++++++++++++
 crates/jarl/src/output_format.rs  | 32 +++++++++++++++----------------
 crates/jarl/src/statistics.rs     |  8 ++++----
 4 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index bced528..e855581 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -74,12 +74,12 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     if paths.is_empty() {
         // Keep the structured output valid
         if args.output_format == OutputFormat::Json && !args.statistics {
-            eprintln!("Warning: No R files found under the given path(s).");
+            print_stderr!("Warning: No R files found under the given path(s).");
             JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
             return Ok(ExitStatus::Success);
         }
 
-        println!(
+        print_stdout!(
             "{}: {}",
             "Warning".yellow().bold(),
             "No R files found under the given path(s).".white().bold()
@@ -310,7 +310,7 @@ fn add_jarl_ignore_comments(
     }
 
     if all_diagnostics.is_empty() {
-        println!(
+        print_stdout!(
             "{}: {}",
             "Info".cyan().bold(),
             "No violations found, no suppression comments added.".white()
@@ -334,7 +334,7 @@ fn add_jarl_ignore_comments(
         let content = match std::fs::read_to_string(&path) {
             Ok(c) => c,
             Err(e) => {
-                eprintln!(
+                print_stderr!(
                     "{}: Could not read {}: {}",
                     "Error".red().bold(),
                     path.display(),
@@ -416,7 +416,7 @@ fn add_jarl_ignore_comments(
             Ok(()) => {
                 total_suppressions += num_suppressions;
                 files_modified += 1;
-                println!(
+                print_stdout!(
                     "{}: Added {} suppression comment(s) to {}",
                     "Modified".green().bold(),
                     num_suppressions,
@@ -424,7 +424,7 @@ fn add_jarl_ignore_comments(
                 );
             }
             Err(e) => {
-                eprintln!(
+                print_stderr!(
                     "{}: Could not write {}: {}",
                     "Error".red().bold(),
                     path.display(),
@@ -437,7 +437,7 @@ fn add_jarl_ignore_comments(
 
     // Summary
     if total_suppressions > 0 {
-        println!(
+        print_stdout!(
             "\n{}: Added {} suppression comment(s) across {} file(s).",
             "Summary".cyan().bold(),
             total_suppressions,
@@ -447,7 +447,7 @@ fn add_jarl_ignore_comments(
 
     // Inform about parent config if applicable
     if let Some(config_path) = parent_config_path {
-        println!("\nUsed '{}'", config_path.display());
+        print_stdout!("\nUsed '{}'", config_path.display());
     }
 
     Ok(status)
diff --git a/crates/jarl/src/lib.rs b/crates/jarl/src/lib.rs
index 345d41e..4cf94ac 100644
--- a/crates/jarl/src/lib.rs
+++ b/crates/jarl/src/lib.rs
@@ -2,6 +2,23 @@ use crate::args::Args;
 use crate::args::Command;
 use crate::status::ExitStatus;
 
+/// Same as `println!`, but doesn't panic if the output can't be written (e.g.
+/// `jarl check . | head`).
+macro_rules! print_stdout {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        writeln!(std::io::stdout(), $($arg)*).ok();
+    }};
+}
+
+/// Same as `eprintln!`, but doesn't panic if the output can't be written.
+macro_rules! print_stderr {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        writeln!(std::io::stderr(), $($arg)*).ok();
+    }};
+}
+
 pub mod args;
 pub mod commands;
 pub mod logging;
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 06ba07a..cea33f9 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -25,7 +25,7 @@ pub fn print_section_header(title: &str) {
     let prefix = format!("── {title} ──");
     let pad = TOTAL_WIDTH.saturating_sub(prefix.len());
     let padding: String = "─".repeat(pad);
-    println!("{prefix}{padding}");
+    print_stdout!("{prefix}{padding}");
 }
 
 /// Prints the summary section with error counts and fix info.
@@ -36,13 +36,13 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
     let n_unsafe_fixes = diagnostics.iter().filter(|d| d.has_unsafe_fix()).count();
 
     if total > 0 {
-        println!();
+        print_stdout!();
         print_section_header("Summary");
 
         if total > 1 {
-            println!("Found {total} errors.");
+            print_stdout!("Found {total} errors.");
         } else {
-            println!("Found 1 error.");
+            print_stdout!("Found 1 error.");
         }
 
         if n_safe_fixes > 0 {
@@ -58,14 +58,14 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
                     "{n_safe_fixes} fixable with the `--fix` option ({unsafe_label} can be enabled with the `--unsafe-fixes` option)."
                 )
             };
-            println!("{msg}");
+            print_stdout!("{msg}");
         } else if n_unsafe_fixes > 0 {
             let label = if n_unsafe_fixes == 1 {
                 "1 fix is".to_string()
             } else {
                 format!("{n_unsafe_fixes} fixes are")
             };
-            println!("{label} available with the `--fix --unsafe-fixes` option.");
+            print_stdout!("{label} available with the `--fix --unsafe-fixes` option.");
         }
 
         let n_violations = std::env::var("JARL_N_VIOLATIONS_HINT_STAT")
@@ -73,13 +73,13 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
             .and_then(|value| value.parse::<i32>().ok())
             .unwrap_or(15);
         if total > n_violations {
-            println!(
+            print_stdout!(
                 "More than {n_violations} errors reported, use `--statistics` to get the count by rule."
             );
         }
     } else if !has_errors {
         print_section_header("Summary");
-        println!("All checks passed!");
+        print_stdout!("All checks passed!");
     }
 }
 
@@ -88,10 +88,10 @@ pub fn print_warnings(warnings: &[String]) {
     if warnings.is_empty() {
         return;
     }
-    println!();
+    print_stdout!();
     print_section_header("Warnings");
     for warning in warnings {
-        println!("{warning}");
+        print_stdout!("{warning}");
     }
 }
 
@@ -100,10 +100,10 @@ pub fn print_notes(notes: &[String]) {
     if notes.is_empty() {
         return;
     }
-    println!();
+    print_stdout!();
     print_section_header("Notes");
     for note in notes {
-        println!("{note}");
+        print_stdout!("{note}");
     }
 }
 
@@ -112,9 +112,9 @@ pub fn print_errors(errors: &[(String, anyhow::Error)]) {
     for (_path, err) in errors {
         let root_cause = err.chain().last().unwrap();
         if root_cause.is::<jarl_core::error::ParseError>() {
-            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+            print_stderr!("{}: {}", "Error".red().bold(), root_cause);
         } else {
-            eprintln!("{}: {}", "Error".red().bold(), err);
+            print_stderr!("{}: {}", "Error".red().bold(), err);
         }
     }
 }
@@ -331,7 +331,7 @@ impl Emitter for FullEmitter {
             writer.flush()?; // Flush before writing to stderr
             print_errors(errors);
             if !diagnostics.is_empty() {
-                eprintln!(); // Add separator between errors and diagnostics
+                print_stderr!(); // Add separator between errors and diagnostics
             }
         }
 
@@ -360,7 +360,7 @@ impl Emitter for FullEmitter {
                     }
                     Err(err) => {
                         writer.flush()?; // Flush before writing to stderr
-                        eprintln!(
+                        print_stderr!(
                             "Warning: Could not read source file {}: {}",
                             diagnostic.filename.display(),
                             err
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index fa474ef..c2c54d8 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -9,7 +9,7 @@ pub fn print_statistics(
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
     if diagnostics.is_empty() {
-        println!("All checks passed!");
+        print_stdout!("All checks passed!");
         return Ok(ExitStatus::Success);
     }
 
@@ -31,7 +31,7 @@ pub fn print_statistics(
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-        println!(
+        print_stdout!(
             "{:>5} [{}] {}",
             value.0.to_string().bold(),
             star,
@@ -39,11 +39,11 @@ pub fn print_statistics(
         );
     }
 
-    println!("\nRules with `[*]` have an automatic fix.");
+    print_stdout!("\nRules with `[*]` have an automatic fix.");
 
     // Inform the user if the config file used comes from a parent directory.
     if let Some(config_path) = parent_config_path {
-        println!("\nUsed '{}'", config_path.display());
+        print_stdout!("\nUsed '{}'", config_path.display());
     }
 
     Ok(ExitStatus::Failure)
-- 
2.43.0

