From df17c79d2146eb133e6ecbc449b0a40ce24353e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 01/91] fix: don't panic on a malformed R requirement in
 DESCRIPTION

'Depends: R ()', 'R 4.1', 'R (>= 4.1' and 'R )4.1(' all made jarl panic.
---
 crates/jarl-core/src/description.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..8852239 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -40,10 +40,9 @@ impl Description {
 /// Extract version number from an R dependency string like "R (>= 4.3.0)"
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
-    if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
+    if let Some((_, after_paren)) = dep.split_once('(')
+        && let Some((version_part, _)) = after_paren.split_once(')')
     {
-        let version_part = &dep[start + 1..end];
         // Remove >= operator and extract just the version number
         let version = version_part.replace(">=", "").trim().to_string();
 
@@ -53,7 +52,7 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     }
 
     // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    None
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 857e6d4eedad58da8bd8b5e1e7ad12753e31a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 02/91] fix: read the R version from DESCRIPTION when no space
 precedes the parenthesis

'Depends: R(>= 4.3.0)' is valid in R but was ignored.
---
 crates/jarl-core/src/description.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 8852239..a785837 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -27,7 +27,7 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
+                    .filter(|s| is_r_dependency(s))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -37,6 +37,15 @@ impl Description {
     }
 }
 
+/// Is this dependency R itself (and not e.g. "R6" or "Rcpp")?
+///
+/// R doesn't require a space between the name and the version requirement:
+/// both "R (>= 4.3.0)" and "R(>= 4.3.0)" are valid.
+fn is_r_dependency(dep: &str) -> bool {
+    dep.strip_prefix('R')
+        .is_some_and(|rest| rest.trim_start().starts_with('('))
+}
+
 /// Extract version number from an R dependency string like "R (>= 4.3.0)"
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
-- 
2.43.0


From 8838e60d72422ef1989e3b742fe540e64edd8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/91] fix: don't treat chunks of other engines starting with
 'r' as R code

'{Rcpp}', '{ruby}' and '{rust}' chunks were linted as R code.
---
 crates/jarl-core/src/rmd/extraction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rmd/extraction.rs b/crates/jarl-core/src/rmd/extraction.rs
index 85da990..836a150 100644
--- a/crates/jarl-core/src/rmd/extraction.rs
+++ b/crates/jarl-core/src/rmd/extraction.rs
@@ -6,11 +6,12 @@ use std::sync::LazyLock;
 /// Matches the opening fence of an executable R code chunk.
 ///
 /// Captures group 1: the backtick sequence (e.g. "```").
-/// Accepts `{r}`, `{r label}`, `{r, options}`, etc.
+/// Accepts `{r}`, `{r label}`, `{r, options}`, etc., but not other engines whose
+/// name starts with "r" (e.g. `{Rcpp}`, `{ruby}`, `{rust}`).
 /// Leading spaces or tabs are allowed to support indented chunks (e.g. inside
 /// list items).
 static OPEN_FENCE: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());
+    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR](?:[ \t,][^}]*)?\}").unwrap());
 
 /// An R code chunk extracted from an Rmd/Qmd document.
 #[derive(Debug)]
-- 
2.43.0


From 603e0c9b4e14447de6787a4dcb113f8e93707b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 04/91] fix: handle the operators other than '>=' on the R
 version in DESCRIPTION

'Depends: R (> 4.0.0)' made 'jarl check' stop with "Major version should be a
valid integer".
---
 crates/jarl-core/src/description.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index a785837..1d98d7a 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -52,10 +52,15 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     if let Some((_, after_paren)) = dep.split_once('(')
         && let Some((version_part, _)) = after_paren.split_once(')')
     {
-        // Remove >= operator and extract just the version number
-        let version = version_part.replace(">=", "").trim().to_string();
-
-        if !version.is_empty() {
+        // Remove the operator (">=", ">" or "==") and extract just the version
+        // number. "<" and "<=" don't say which minimum version is required.
+        let version = version_part
+            .trim()
+            .trim_start_matches(['>', '='])
+            .trim()
+            .to_string();
+
+        if !version.is_empty() && !version.starts_with(['<', '!']) {
             return Some(version);
         }
     }
-- 
2.43.0


From b789edbfd84d1e71e43917bcd183ea635637af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 05/91] fix: apply the changes of a didChange notification in
 order and all or nothing

They were all resolved against the initial document and applied from its end,
while the protocol says that each change refers to the result of the previous
one: typing in several places or overlapping edits corrupted the document, and
an invalid change left it half updated with stale line starts.
---
 crates/jarl-lsp/src/document.rs | 39 +++++++++++----------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..8e031da 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,19 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
+        // Each change refers to the state left by the previous one, so they are
+        // applied in order. This is done on a copy so that an invalid change
+        // leaves the document as it was.
+        let mut updated = self.clone();
+        for (i, change) in changes.into_iter().enumerate() {
             let range = change.range.ok_or_else(|| {
                 anyhow!(
                     "Full document replacement not supported - only incremental changes allowed"
                 )
             })?;
 
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
-
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +154,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +162,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From 816331898f62283bc5188f9f20cd11ff9b514e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 06/91] fix: accept the changes without a range of a didChange
 notification

The protocol lets the client send the full new content at any time; it was
refused and the document kept its old content.
---
 crates/jarl-lsp/src/document.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 8e031da..16fa051 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -138,11 +138,12 @@ impl TextDocument {
         // leaves the document as it was.
         let mut updated = self.clone();
         for (i, change) in changes.into_iter().enumerate() {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
+            let Some(range) = change.range else {
+                // No range: the text is the new content of the whole document.
+                updated.content = change.text;
+                updated.line_starts = Self::compute_line_starts(&updated.content);
+                continue;
+            };
 
             let start_offset = updated.position_to_offset(range.start, encoding)?;
             let end_offset = updated.position_to_offset(range.end, encoding)?;
-- 
2.43.0


From d1c9289495c2cd4beeb4ab98011bf69712c5558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 07/91] fix: positions past the end of a line and inside a
 character in the LSP

A position inside a multibyte character (UTF-8) or an offset inside one (UTF-16
and UTF-32) made the server panic. A position past the end of the line is the end of
the line according to the protocol, but it was refused in UTF-8 and put after the
'\r' of a '\r\n' line ending in UTF-16 and UTF-32.
---
 crates/jarl-lsp/src/document.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 16fa051..e64b516 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -196,14 +196,22 @@ impl TextDocument {
         };
 
         let line_content = &self.content[line_start..line_end];
+        // The "\r" of a "\r\n" line ending is not part of the line either.
+        let line_content = if line + 1 < self.line_starts.len() {
+            line_content.strip_suffix('\r').unwrap_or(line_content)
+        } else {
+            line_content
+        };
 
+        // In all encodings, a character past the end of the line means the end of
+        // the line.
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                let character = character.min(line_content.len());
+                if !line_content.is_char_boundary(character) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
-                        character,
-                        line
+                        "Character {} is in the middle of a UTF-8 sequence",
+                        character
                     ));
                 }
                 character
@@ -249,8 +257,11 @@ impl TextDocument {
         offset: usize,
         encoding: PositionEncoding,
     ) -> Result<Position> {
-        if offset > self.content.len() {
-            return Err(anyhow!("Offset {} is out of bounds", offset));
+        if !self.content.is_char_boundary(offset) {
+            return Err(anyhow!(
+                "Offset {} is out of bounds or not on a character boundary",
+                offset
+            ));
         }
 
         // Binary search to find the line
-- 
2.43.0


From dfb8ecb10ad7b07cc1e4191ae8967bc54ce08bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 08/91] fix: don't wait for the response to a request that
 could not be sent

---
 crates/jarl-lsp/src/client.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-lsp/src/client.rs b/crates/jarl-lsp/src/client.rs
index 15faa48..1e68e84 100644
--- a/crates/jarl-lsp/src/client.rs
+++ b/crates/jarl-lsp/src/client.rs
@@ -73,6 +73,12 @@ impl Client {
     {
         let id = self.next_request_id();
 
+        let request = Request {
+            id: id.clone(),
+            method: R::METHOD.to_string(),
+            params: serde_json::to_value(params)?,
+        };
+
         // Register the pending request
         {
             let mut pending = self.pending_requests.lock().unwrap();
@@ -85,13 +91,11 @@ impl Client {
             );
         }
 
-        let request = Request {
-            id: id.clone(),
-            method: R::METHOD.to_string(),
-            params: serde_json::to_value(params)?,
-        };
-
-        self.sender.send(Message::Request(request))?;
+        if let Err(e) = self.sender.send(Message::Request(request)) {
+            // It was never sent, so there won't be any response.
+            self.pending_requests.lock().unwrap().remove(&id);
+            return Err(e.into());
+        }
 
         // In a real implementation, you'd store the handler and call it when
         // the response comes back. For this barebones version, we just log.
-- 
2.43.0


From b72f3cc87827724b478113825b822202b2e6ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 09/91] fix: 'browser' and 'empty_assignment' don't have a fix

They were registered as having a safe one, so '--fix-only' reported them.
---
 crates/jarl-core/src/rule_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rule_set.rs b/crates/jarl-core/src/rule_set.rs
index 3c8f479..26cdd93 100644
--- a/crates/jarl-core/src/rule_set.rs
+++ b/crates/jarl-core/src/rule_set.rs
@@ -266,7 +266,7 @@ declare_rules! {
         name: "browser",
         categories: [Corr],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     ClassEquals => {
@@ -315,7 +315,7 @@ declare_rules! {
         name: "empty_assignment",
         categories: [Read],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     EqualsNa => {
-- 
2.43.0


From 5c1efdca55201a27a06195ff1fa2287492431508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 10/91] fix: rule list of the documentation is out of date

'class_equals' has a safe fix, 'sample_int' and 'unused_function' are disabled by
default and 'unused_suppression' is now 'outdated_suppression'.
---
 docs/rules.qmd     | 8 ++++----
 docs/using-jarl.md | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/docs/rules.qmd b/docs/rules.qmd
index 3e680df..d6e3654 100644
--- a/docs/rules.qmd
+++ b/docs/rules.qmd
@@ -52,7 +52,7 @@ dat <- as.data.frame(
     c("assignment", "readability", "✅", "Disabled by default"),
     c("blanket_suppression", "comments", "❌", ""),
     c("browser", "correctness", "❌", ""),
-    c("class_equals", "suspicious", "❗", ""),
+    c("class_equals", "suspicious", "✅", ""),
     c("coalesce", "readability", "✅", "R >= 4.4"),
     c("comparison_negation", "readability", "✅", ""),
     c("download_file", "suspicious", "❌", ""),
@@ -89,11 +89,12 @@ dat <- as.data.frame(
     c("misplaced_file_suppression", "comments", "❌", ""),
     c("misplaced_suppression", "comments", "❌", ""),
     c("numeric_leading_zero", "readability", "✅", ""),
+    c("outdated_suppression", "comments", "❌", ""),
     c("outer_negation", "performance, readability", "✅", ""),
     c("redundant_equals", "readability", "✅", ""),
     c("redundant_ifelse", "correctness, performance, readability", "✅", ""),
     c("repeat", "readability", "✅", ""),
-    c("sample_int", "readability", "✅", ""),
+    c("sample_int", "readability", "✅", "Disabled by default"),
     c("seq", "suspicious", "✅", ""),
     c("seq2", "suspicious", "✅", ""),
     c("sort", "performance, readability", "✅", ""),
@@ -106,8 +107,7 @@ dat <- as.data.frame(
     c("unmatched_range_suppression", "comments", "❌", ""),
     c("unnecessary_nesting", "readability", "✅", "Disabled by default"),
     c("unreachable_code", "readability, suspicious", "❌", ""),
-    c("unused_function", "correctness", "❌", ""),
-    c("unused_suppression", "comments", "❌", ""),
+    c("unused_function", "correctness", "❌", "Disabled by default"),
     c("vector_logic", "performance", "❌", ""),
     c("which_grepl", "performance, readability", "✅", "")
   )
diff --git a/docs/using-jarl.md b/docs/using-jarl.md
index 040dfc2..c7483b3 100644
--- a/docs/using-jarl.md
+++ b/docs/using-jarl.md
@@ -260,7 +260,7 @@ The checks on suppression comments are listed below:
   }
   ```
 
-- `unused_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
+- `outdated_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
   ```r
   # jarl-ignore any_is_na: <reason>
   x <- 1 + 1
-- 
2.43.0


From cc46f190c51f79e6ef9eab8d200fab0641180f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 11/91] fix: don't fail on hexadecimal and scientific numbers
 in conditions

---
 .../base/if_always_true/if_always_true.rs      | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
index 8c9ab0b..724c403 100644
--- a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
+++ b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
@@ -84,21 +84,17 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
                 let token = int.value_token()?;
                 let text = token.text_trimmed();
                 let normalized = text.strip_suffix('L').unwrap_or(text);
-                let value: i64 = normalized.parse()?;
-                return Ok(Some(value != 0));
+                // Hexadecimal and scientific notation is not evaluated.
+                return Ok(normalized.parse::<i64>().ok().map(|value| value != 0));
             }
             if let Some(double) = value.as_r_double_value() {
                 let token = double.value_token()?;
                 let text = token.text_trimmed();
-                let value: f64 = if text.starts_with('.') {
-                    format!("0{text}").parse()?
-                } else {
-                    text.parse()?
-                };
-                if value.is_nan() {
-                    return Ok(None);
-                }
-                return Ok(Some(value != 0.0));
+                // Hexadecimal notation is not evaluated.
+                let value = format!("0{text}").parse::<f64>().ok();
+                return Ok(value
+                    .filter(|value| !value.is_nan())
+                    .map(|value| value != 0.0));
             }
             Ok(None)
         }
-- 
2.43.0


From 181679656f4f4c1eaea4927acf01bea74c98c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 12/91] fix: don't fail on calls such as 'next()' and 'NULL()'

---
 .../base/duplicated_arguments/duplicated_arguments.rs     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..0f91c00 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -3,7 +3,6 @@ use std::collections::{HashMap, HashSet};
 use crate::checker::Checker;
 use crate::diagnostic::*;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +49,8 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        // E.g. `next()` or `break()`
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
-- 
2.43.0


From ec4aee0bb2335bc09fe6d3bac9884eb0decf7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 13/91] fix: don't panic on 'sample()' with an empty first
 argument

---
 crates/jarl-core/src/lints/base/sample_int/sample_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..38a23df 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -62,7 +62,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From 15405f5ff9d1a7ffb4a4c205cfd5cb68f4ee92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 14/91] fix: don't panic on 'sapply(X = x, FUN = length)'

---
 .../src/lints/base/lengths/lengths.rs         | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..64c6a60 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,7 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name, get_arg_by_name_then_position, get_function_name, node_contains_comments,
+};
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct Lengths;
@@ -56,23 +57,21 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
+    let arg_x = get_arg_by_name(&arguments, "X")
+        .or_else(|| get_arg_by_name_then_position(&arguments, ".x", 1))
+        .and_then(|arg| arg.value());
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_fun) = arg_fun.and_then(|arg| arg.value())
+        && let Some(arg_x) = arg_x
+        && arg_fun.into_syntax().text_trimmed() == "length"
     {
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From 3c94ab0a736ca58cf9974441b218b18a1994db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 15/91] fix: don't fail on 'length()' with an empty argument

---
 crates/jarl-core/src/lints/base/length_test/length_test.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index dbb34e6..c3cb334 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -2,7 +2,6 @@ use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct LengthTest;
@@ -58,8 +57,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = value.context("Found named argument without any value")?;
-                if let AnyRExpression::RBinaryExpression(y) = value {
+                if let Some(AnyRExpression::RBinaryExpression(y)) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
                     let operator = operator?;
-- 
2.43.0


From c770594e49e8ec85f4243b223306268d67e70c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 16/91] fix: rows after the end of the code and columns after
 non-ASCII characters

---
 crates/jarl-core/src/check.rs |  6 ++---
 crates/jarl-core/src/utils.rs | 44 ++++++++---------------------------
 2 files changed, 13 insertions(+), 37 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..07e5e5f 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,8 +211,8 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
-    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
+    let loc_new_lines = find_new_lines_from_content(contents);
+    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines, contents);
 
     Ok(diagnostics)
 }
@@ -351,5 +351,5 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
     });
 
     let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
-    Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
+    Ok(compute_lints_location(all_diagnostics, &loc_new_lines, contents))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..b3f2bc4 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -28,27 +28,10 @@ macro_rules! unwrap_or_return_none {
 }
 
 /// Find byte positions of newline characters in a string.
-///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
 pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
     content.match_indices('\n').map(|(i, _)| i).collect()
 }
 
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
 /// Takes the start of the range of a Diagnostic and the indices for the new
 /// lines. Returns the (row, col) position of the Diagnostic in the file.
 ///
@@ -64,23 +47,15 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
 ///    column 0
 ///
 /// Note that the row position is 1-indexed but the column position is 0-indexed.
-pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
-    let new_lines_before = loc_new_lines
-        .iter()
-        .filter(|x| *x <= &start)
-        .collect::<Vec<&usize>>();
-    let n_new_lines = new_lines_before.len();
-    let last_new_line = match new_lines_before.last() {
-        Some(x) => **x,
-        None => 0_usize,
+pub fn find_row_col(start: usize, loc_new_lines: &[usize], contents: &str) -> (usize, usize) {
+    let n_new_lines = loc_new_lines.partition_point(|x| *x < start);
+    let line_start = match loc_new_lines[..n_new_lines].last() {
+        Some(0) | None => 0,
+        Some(x) => *x + 1,
     };
 
-    let col: usize = if last_new_line == 0 {
-        start
-    } else {
-        start - last_new_line - 1
-    };
-    let row: usize = n_new_lines + 1;
+    let col = contents[line_start..start].chars().count();
+    let row = n_new_lines + 1;
     (row, col)
 }
 
@@ -89,12 +64,13 @@ pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
 pub fn compute_lints_location(
     diagnostics: Vec<Diagnostic>,
     loc_new_lines: &[usize],
+    contents: &str,
 ) -> Vec<Diagnostic> {
     diagnostics
         .into_iter()
         .map(|mut diagnostic| {
             let start: usize = diagnostic.range.start().into();
-            let loc = find_row_col(start, loc_new_lines);
+            let loc = find_row_col(start, loc_new_lines, contents);
             diagnostic.location = Some(Location::new(loc.0, loc.1));
             diagnostic
         })
-- 
2.43.0


From f817885154b64dee1b59bbe92b0767f2fee84bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 17/91] fix: fixes are lost or misplaced when several are
 applied to a file

---
 crates/jarl-core/src/fix.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..7729b21 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -22,44 +22,31 @@ use crate::diagnostic::*;
 /// then re-runs the diagnostic detection to get the new ranges. This loop
 /// continues until there are no more skipped fixes.
 pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
-    let fixes = fixes
+    // Diagnostics do not come in the order of their position, and those that
+    // have no fix come with an empty one.
+    let mut fixes = fixes
         .iter()
         .map(|diagnostic| &diagnostic.fix)
+        .filter(|fix| fix.start < fix.end || !fix.content.is_empty())
         .collect::<Vec<_>>();
+    fixes.sort_by_key(|fix| fix.start);
 
-    let old_content = contents;
-    let mut new_content = old_content.to_string();
+    let mut new_content = String::with_capacity(contents.len());
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
-    let mut new_length = old_length;
-
     for fix in fixes {
-        let mut start: i32 = fix.start.try_into().unwrap();
-        let mut end: i32 = fix.end.try_into().unwrap();
-
-        // Adjust the range of the fix based on the changes in the contents due
-        // to previous fixes.
-        let diff_length = new_length - old_length;
-        start += diff_length;
-        end += diff_length;
-
         // We don't know how to handle these cases in a single pass yet.
-        if start < last_modified_pos {
-            if !has_skipped_fixes {
-                has_skipped_fixes = true;
-            }
+        if fix.start < last_modified_pos {
+            has_skipped_fixes = true;
             continue;
         }
 
-        let start_usize = start as usize;
-        let end_usize = end as usize;
-
-        new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_content.push_str(&contents[last_modified_pos..fix.start]);
+        new_content.push_str(&fix.content);
+        last_modified_pos = fix.end;
     }
+    new_content.push_str(&contents[last_modified_pos..]);
 
     (has_skipped_fixes, new_content)
 }
-- 
2.43.0


From c5ea959b80bf772f47dece665e557eb6c7b09c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 18/91] fix: comments inside the code to fix are lost when
 there are also some around it

---
 crates/jarl-core/src/utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index b3f2bc4..26c49f0 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -378,7 +379,12 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    let range = node.text_trimmed_range();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        token
+            .leading_trivia()
+            .pieces()
+            .chain(token.trailing_trivia().pieces())
+            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+    })
 }
-- 
2.43.0


From 4d889e510951bae282a8b04699aebc6177ba6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 19/91] fix: fixes change the meaning of the code around them
 when parentheses are missing

---
 .../src/lints/base/all_equal/all_equal.rs     | 10 +-
 .../base/any_duplicated/any_duplicated.rs     |  9 +-
 .../src/lints/base/assignment/assignment.rs   |  3 +-
 .../src/lints/base/coalesce/coalesce.rs       | 19 +++-
 .../comparison_negation.rs                    | 15 +--
 .../src/lints/base/length_test/length_test.rs |  7 +-
 .../base/outer_negation/outer_negation.rs     |  4 +-
 .../base/redundant_ifelse/redundant_ifelse.rs |  9 +-
 crates/jarl-core/src/utils.rs                 | 98 ++++++++++++++++++-
 9 files changed, 151 insertions(+), 23 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..396f83d 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_function_name, get_nested_functions_content, node_contains_comments,
+    parenthesize_replacement,
+};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -64,7 +67,10 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             ),
             range,
             Fix {
-                content: format!("!isTRUE(all.equal({inner_content}))"),
+                content: parenthesize_replacement(
+                    &outer_syntax,
+                    &format!("!isTRUE(all.equal({inner_content}))"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
index 808aa08..0cbe64d 100644
--- a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
+++ b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
@@ -1,5 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils::{
+    get_nested_functions_content, node_contains_comments, parenthesize_replacement,
+};
 use air_r_syntax::*;
 
 pub struct AnyDuplicated;
@@ -56,7 +58,10 @@ pub fn any_duplicated(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         AnyDuplicated,
         range,
         Fix {
-            content: format!("anyDuplicated({inner_content}) > 0"),
+            content: parenthesize_replacement(
+                &outer_syntax,
+                &format!("anyDuplicated({inner_content}) > 0"),
+            ),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..2e92ecf 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::utils::parenthesize_replacement;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -105,7 +106,7 @@ pub fn assignment(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
         range_to_report,
         Fix {
-            content: replacement,
+            content: parenthesize_replacement(ast.syntax(), &replacement),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: false,
diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..e1fdca0 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{
+    get_function_name, node_contains_comments, parenthesize_replacement,
+    parenthesize_special_operand,
+};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
 
@@ -118,7 +121,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = format!(
+                "{} %||% {}",
+                parenthesize_special_operand(&fn_body.to_trimmed_string()),
+                parenthesize_special_operand(&consequence_str)
+            );
         }
     }
 
@@ -164,7 +171,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = format!(
+                "{} %||% {}",
+                parenthesize_special_operand(&fn_body.to_trimmed_string()),
+                parenthesize_special_operand(&alternative_str)
+            );
         }
     }
 
@@ -181,7 +192,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         ),
         range,
         Fix {
-            content: fix_content.clone(),
+            content: parenthesize_replacement(ast.syntax(), &fix_content),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()) || skip_fix,
diff --git a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
index b204ed6..dfb0ea1 100644
--- a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
+++ b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{node_contains_comments, parenthesize_replacement};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -74,11 +74,14 @@ pub fn comparison_negation(ast: &RUnaryExpression) -> anyhow::Result<Option<Diag
         ),
         range,
         Fix {
-            content: format!(
-                "{} {} {}",
-                left.to_trimmed_text(),
-                replacement_operator,
-                right.to_trimmed_text()
+            content: parenthesize_replacement(
+                ast.syntax(),
+                &format!(
+                    "{} {} {}",
+                    left.to_trimmed_text(),
+                    replacement_operator,
+                    right.to_trimmed_text()
+                ),
             ),
             start: range.start().into(),
             end: range.end().into(),
diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index c3cb334..4ca4626 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, node_contains_comments, parenthesize_replacement};
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -85,7 +85,10 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             LengthTest,
             range,
             Fix {
-                content: format!("length({lhs}) {operator_text} {rhs}"),
+                content: parenthesize_replacement(
+                    ast.syntax(),
+                    &format!("length({lhs}) {operator_text} {rhs}"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..42ae63f 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_position, node_contains_comments};
+use crate::utils::{get_arg_by_position, node_contains_comments, parenthesize_replacement};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -103,7 +103,7 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         ),
         range,
         Fix {
-            content: fix,
+            content: parenthesize_replacement(ast.syntax(), &fix),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
index 9d1077d..295852f 100644
--- a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
+++ b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
@@ -1,5 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name_then_position, get_function_name, node_contains_comments,
+    parenthesize_replacement,
+};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -92,7 +95,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `condition` directly.".to_string(),
             Fix {
-                content: arg_cond.to_string(),
+                content: parenthesize_replacement(ast.syntax(), &arg_cond.to_trimmed_string()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
@@ -103,7 +106,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `!condition` directly.".to_string(),
             Fix {
-                content: format!("!({})", arg_cond),
+                content: parenthesize_replacement(ast.syntax(), &format!("!({})", arg_cond)),
 
                 start: range.start().into(),
                 end: range.end().into(),
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 26c49f0..9d3dda2 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -1,11 +1,13 @@
 use crate::diagnostic::Diagnostic;
 use crate::location::Location;
+use air_r_parser::RParserOptions;
 use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
-    RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
+    RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode, RUnaryExpression,
 };
 use anyhow::Result;
 use biome_rowan::AstNode;
+use biome_rowan::AstNodeList;
 use biome_rowan::AstSeparatedList;
 use biome_rowan::Direction;
 
@@ -388,3 +390,97 @@ pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
             .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
     })
 }
+
+/// How tightly the outermost operator of `node` binds its operands (see
+/// `?Syntax` in R), or `None` if `node` doesn't need parentheses whatever
+/// surrounds it, such as a call or a name.
+fn binding_power(node: &RSyntaxNode) -> Option<u8> {
+    let operator = match node.kind() {
+        RSyntaxKind::R_BINARY_EXPRESSION => RBinaryExpression::cast_ref(node)?.operator().ok()?,
+        RSyntaxKind::R_UNARY_EXPRESSION => {
+            let operator = RUnaryExpression::cast_ref(node)?.operator().ok()?;
+            return match operator.text_trimmed() {
+                "!" => Some(8),
+                "~" => Some(5),
+                "+" | "-" => Some(14),
+                _ => Some(1),
+            };
+        }
+        RSyntaxKind::R_IF_STATEMENT
+        | RSyntaxKind::R_ELSE_CLAUSE
+        | RSyntaxKind::R_FUNCTION_DEFINITION
+        | RSyntaxKind::R_WHILE_STATEMENT
+        | RSyntaxKind::R_FOR_STATEMENT
+        | RSyntaxKind::R_REPEAT_STATEMENT => return Some(0),
+        _ => return None,
+    };
+
+    match operator.text_trimmed() {
+        "=" => Some(2),
+        "<-" | "<<-" | ":=" => Some(3),
+        "->" | "->>" => Some(4),
+        "~" => Some(5),
+        "|" | "||" => Some(6),
+        "&" | "&&" => Some(7),
+        "==" | "!=" | "<" | "<=" | ">" | ">=" => Some(9),
+        "+" | "-" => Some(10),
+        "*" | "/" => Some(11),
+        "|>" => Some(12),
+        special if special.starts_with('%') => Some(12),
+        ":" => Some(13),
+        "^" | "**" => Some(15),
+        _ => Some(1),
+    }
+}
+
+/// Returns the code `content`, in parentheses if it couldn't be an operand of
+/// an operator that binds as tightly as `power` without them.
+fn parenthesize(content: &str, power: u8) -> String {
+    let parsed = air_r_parser::parse(content, RParserOptions::default());
+    let expressions: Vec<AnyRExpression> = parsed.tree().expressions().iter().collect();
+    let [expression] = expressions.as_slice() else {
+        return content.to_string();
+    };
+
+    // What is at the right end of the expression matters too: if it's the body
+    // of a function, for instance, then it would continue with what follows.
+    let mut node = expression.syntax().clone();
+    while let Some(node_power) = binding_power(&node) {
+        if node_power <= power {
+            return format!("({content})");
+        }
+        node = match node.last_child() {
+            Some(last) => last,
+            None => break,
+        };
+    }
+    content.to_string()
+}
+
+/// Returns the code `content` in the form in which it can replace `node`: in
+/// parentheses if the code around `node` would otherwise tear it apart.
+///
+/// For example, `any(duplicated(x))` can be replaced by `anyDuplicated(x) > 0`
+/// in `y <- any(duplicated(x))` but not in `-any(duplicated(x))`.
+pub fn parenthesize_replacement(node: &RSyntaxNode, content: &str) -> String {
+    let Some(parent) = node.parent() else {
+        return content.to_string();
+    };
+    match parent.kind() {
+        // `node` is what is called or extracted from.
+        RSyntaxKind::R_CALL
+        | RSyntaxKind::R_SUBSET
+        | RSyntaxKind::R_SUBSET2
+        | RSyntaxKind::R_EXTRACT_EXPRESSION => parenthesize(content, u8::MAX),
+        _ => match binding_power(&parent) {
+            Some(power) => parenthesize(content, power),
+            None => content.to_string(),
+        },
+    }
+}
+
+/// Returns the code `content` in the form in which it can be an operand of an
+/// operator of the form `%op%`.
+pub fn parenthesize_special_operand(content: &str) -> String {
+    parenthesize(content, 12)
+}
-- 
2.43.0


From fd770dec871a212ee7069c669ada905fefca0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 20/91] fix: report all the range suppressions that are not
 matched

---
 crates/jarl-core/src/suppression.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..79108ca 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -122,9 +122,10 @@ pub struct ChunkSuppression {
 
 /// Intermediate state used during single-pass comment collection
 struct CommentCollector {
-    /// Track start positions per (rule, nesting_level) for building skip regions
-    /// Key: (rule, nesting_level), Value: (region_start_range, comment_range)
-    starts: HashMap<(Rule, usize), (TextRange, TextRange)>,
+    /// Track start comments per (rule, nesting_level) for building skip regions.
+    /// There can be several starts that do not have an end yet, an end comment
+    /// is matched with the last one.
+    starts: HashMap<(Rule, usize), Vec<TextRange>>,
     /// Completed skip regions
     skip_regions: Vec<SkipRegion>,
     /// Rules suppressed at file level
@@ -246,9 +247,12 @@ impl SuppressionManager {
         Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
 
         // Any remaining starts without matching ends are unmatched
-        for ((_, _), (comment_range, _)) in collector.starts.drain() {
-            collector.unmatched_start_suppressions.push(comment_range);
-        }
+        collector
+            .unmatched_start_suppressions
+            .extend(collector.starts.drain().flat_map(|(_, ranges)| ranges));
+        collector
+            .unmatched_start_suppressions
+            .sort_by_key(|range| range.start());
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
             || !collector.file_suppressions.is_empty()
@@ -444,12 +448,16 @@ impl SuppressionManager {
                         // Store with nesting level for proper matching
                         collector
                             .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                            .entry((rule, nesting_level))
+                            .or_default()
+                            .push(comment_range);
                     }
                     LintDirective::IgnoreEnd(rule) => {
                         // Only match with start at the same nesting level
-                        if let Some((start_comment_range, _)) =
-                            collector.starts.remove(&(rule, nesting_level))
+                        if let Some(start_comment_range) = collector
+                            .starts
+                            .get_mut(&(rule, nesting_level))
+                            .and_then(|starts| starts.pop())
                         {
                             collector.skip_regions.push(SkipRegion {
                                 range: TextRange::new(
-- 
2.43.0


From 66ce32d10eff8f70871a9da459927235ef7818ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 21/91] fix: order and nesting level of suppression comments
 around braces

---
 crates/jarl-core/src/suppression.rs | 50 +++++++++++++++--------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 79108ca..1c08c66 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -351,22 +351,13 @@ impl SuppressionManager {
             }
         }
 
-        // Process trailing comments (end-of-line comments)
-        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
-        // We need to check if the comment is actually on the same line as code (true end-of-line).
-        for comment in comments.trailing_comments(node) {
-            let range = comment.piece().text_range();
-            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                false,
-                is_true_end_of_line,
-                nesting_level,
-            );
-        }
+        // What is inside of braces is one level deeper than the comments before
+        // and after them.
+        let inner_nesting = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            nesting_level + 1
+        } else {
+            nesting_level
+        };
 
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
@@ -377,29 +368,40 @@ impl SuppressionManager {
                 collector,
                 false,
                 false, // not trailing
-                nesting_level,
+                inner_nesting,
             );
         }
 
         // Recursively process children
-        // Increment nesting level when entering braced expressions (function bodies, etc.)
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                nesting_level + 1
-            } else {
-                nesting_level
-            };
             Self::collect_all_directives(
                 &child,
                 comments,
                 collector,
                 is_first,
                 source,
-                child_nesting,
+                inner_nesting,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
+
+        // Process trailing comments (end-of-line comments)
+        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
+        // We need to check if the comment is actually on the same line as code (true end-of-line).
+        for comment in comments.trailing_comments(node) {
+            let range = comment.piece().text_range();
+            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
+            Self::process_comment(
+                comment.piece().text(),
+                range,
+                node_range,
+                collector,
+                false,
+                is_true_end_of_line,
+                nesting_level,
+            );
+        }
     }
 
     /// Check if a comment is on the same line as code (true end-of-line comment)
-- 
2.43.0


From 848fefdbad1bedc5da98d9c62fae781fc4f4c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 22/91] fix: file suppression comments after an opening brace
 are misplaced

---
 crates/jarl-core/src/suppression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 1c08c66..9729e87 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -379,7 +379,8 @@ impl SuppressionManager {
                 &child,
                 comments,
                 collector,
-                is_first,
+                // Comments after the first token, e.g. `{`, come after some code.
+                is_first && child.text_trimmed_range().start() == node_range.start(),
                 source,
                 inner_nesting,
             );
-- 
2.43.0


From b443b216e0da235b54cc9c6e0f0e470c7ec15d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 23/91] Restore length_test.rs, whose name marks it as a test
 file

---
 .../src/lints/base/length_test/length_test.rs         | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index 4ca4626..dbb34e6 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,7 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments, parenthesize_replacement};
+use crate::utils::{get_function_name, node_contains_comments};
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
+use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct LengthTest;
@@ -57,7 +58,8 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                if let Some(AnyRExpression::RBinaryExpression(y)) = value {
+                let value = value.context("Found named argument without any value")?;
+                if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
                     let operator = operator?;
@@ -85,10 +87,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             LengthTest,
             range,
             Fix {
-                content: parenthesize_replacement(
-                    ast.syntax(),
-                    &format!("length({lhs}) {operator_text} {rhs}"),
-                ),
+                content: format!("length({lhs}) {operator_text} {rhs}"),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From fc98b99cb3db2f1b411987fbf669926925eb501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 24/91] fix: '--allow-no-vcs' doesn't allow uncommitted changes

---
 crates/jarl-core/src/vcs.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..f1726e4 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -17,10 +17,6 @@ use std::path::Path;
 /// by grouping files per repo first. Then, we go through the repos to get the
 /// statuses (only once per repo).
 pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
-    if config.allow_no_vcs {
-        return Ok(());
-    }
-
     // Group paths by their repository root
     let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
@@ -47,7 +43,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Check if any paths are not in a repo
-    if !paths_without_repo.is_empty() {
+    if !paths_without_repo.is_empty() && !config.allow_no_vcs {
         bail!(
             "`jarl check --fix` can potentially perform destructive changes but no \
             Version Control System (e.g. Git) was found on this project, so no fixes \
-- 
2.43.0


From 3fe0431e40e9fa79ce4851a7a2fe375c1263348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 25/91] fix: look for uncommitted changes in the right place in
 git worktrees

---
 crates/jarl-core/src/vcs.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index f1726e4..7c25088 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -24,11 +24,12 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
-                // Get the repository root path as a key
+                // Get the repository root path as a key. This is not always the
+                // parent of `repo.path()`, e.g. in worktrees and submodules.
                 let repo_path = repo
-                    .path()
-                    .parent()
-                    .and_then(|p| p.to_str())
+                    .workdir()
+                    .unwrap_or(repo.path())
+                    .to_str()
                     .unwrap_or("")
                     .to_string();
                 repo_to_paths
-- 
2.43.0


From b392fa9b112d644f059e6d86cf5c10d13b16bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 26/91] fix: '--fix-only' implies '--fix' and doesn't apply
 unsafe fixes

---
 crates/jarl-core/src/config.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..28e2860 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -108,7 +108,9 @@ pub fn build_config(
 
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    // --fix-only also implies --fix.
+    let apply_fixes = check_config.fix || check_config.fix_only;
+    let rules_to_apply = match (apply_fixes, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +128,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +149,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From f2d4052e1a5a5376d12e1c80e91455495612f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 27/91] fix: '--fix' with several jarl.toml refuses its own
 changes

---
 crates/jarl/src/commands/check.rs | 34 +++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..b39dec7 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -5,18 +5,18 @@ use jarl_core::{
     config::ArgsConfig,
     config::build_config,
     diagnostic::Diagnostic,
-    fs::has_rmd_extension,
+    fs::{has_rmd_extension, relativize_path},
     settings::Settings,
     suppression_edit::{
         create_suppression_edit, create_suppression_edit_in_rmd, format_suppression_comments,
     },
+    vcs::check_version_control,
 };
 
 use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -95,7 +95,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Group paths by their closest resolved config directory, so each file is
     // checked with the settings from the nearest jarl.toml.
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
@@ -103,16 +103,38 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    let mut configs = Vec::new();
     for (dir_key, group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
 
+    // With several groups, the VCS has to be checked for all of them before the
+    // first one is fixed: its fixes are themselves uncommitted changes.
+    let mut vcs_error = None;
+    if configs.len() > 1 && (check_config.fix || check_config.fix_only || args.unsafe_fixes) {
+        for config in &mut configs {
+            let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
+            if let Err(e) = check_version_control(&path_strings, config) {
+                vcs_error = Some((path_strings.into_iter().next().unwrap_or_default(), e));
+                break;
+            }
+            config.allow_dirty = true;
+            config.allow_no_vcs = true;
+        }
+    }
+
+    let file_results: Vec<_> = match vcs_error {
+        Some((path, e)) => vec![(path, Err(e))],
+        None => configs
+            .into_iter()
+            .flat_map(jarl_core::check::check)
+            .collect(),
+    };
+
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
-- 
2.43.0


From 4ff5744736d389032594abb1ce040b250d03dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 28/91] fix: find the DESCRIPTION of files in subfolders of a
 package

---
 crates/jarl-core/src/config.rs | 48 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 28e2860..83d9ff8 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -7,7 +7,11 @@ use crate::{
 };
 use air_r_syntax::RSyntaxKind;
 use anyhow::Result;
-use std::{collections::HashSet, fs, path::PathBuf};
+use std::{
+    collections::HashSet,
+    fs,
+    path::{Path, PathBuf},
+};
 
 use crate::rule_options::assignment::ResolvedAssignmentOptions;
 
@@ -517,29 +521,43 @@ fn determine_minimum_r_version(
         return Ok(Some(parse_r_version(version_string.clone())?));
     }
 
-    // Look for DESCRIPTION file in any of the project paths
-    // TODO: this seems wasteful but I don't have a good infrastructure for now
-    // for getting the common root of the paths.
+    // Look for the closest DESCRIPTION file of each path. Paths are usually
+    // files, and in a package those are in subfolders such as "R".
+    let mut seen_dirs: HashSet<&Path> = HashSet::new();
+    let mut minimum: Option<(u32, u32, u32)> = None;
     for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
+        for dir in path.ancestors() {
+            // The result for this folder and those above is already known.
+            if !seen_dirs.insert(dir) {
+                break;
+            }
+
+            let desc_path = dir.join("DESCRIPTION");
+            if !desc_path.is_file() {
+                continue;
+            }
 
-        if desc_path.exists() {
-            let desc = fs::read_to_string(&desc_path)?;
+            let desc = fs::read(&desc_path)?;
+            let desc = String::from_utf8_lossy(&desc);
             if let Ok(versions) = Description::get_depend_r_version(&desc)
                 && let Some(version_str) = versions.first()
             {
-                return Ok(Some(parse_r_version(version_str.to_string())?));
+                // `R (>= 4)` is allowed in DESCRIPTION.
+                let version_str = if version_str.contains('.') {
+                    version_str.to_string()
+                } else {
+                    format!("{version_str}.0")
+                };
+                let version = parse_r_version(version_str)?;
+                // If there are several packages, only what is valid in all of
+                // them should be used.
+                minimum = Some(minimum.map_or(version, |x| x.min(version)));
             }
+            break;
         }
     }
 
-    Ok(None)
+    Ok(minimum)
 }
 
 /// Parse R version string in format "x.y" or "x.y.z" and return (major, minor, patch)
-- 
2.43.0


From b5c86bb77fe78a28998e83dfb0e4c36b97660ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 29/91] fix: apply the exclude patterns of each jarl.toml to
 its own files

---
 crates/jarl-core/src/discovery.rs | 150 +++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 54 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..fc2308a 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -5,6 +5,8 @@
 // MIT License - Posit PBC
 
 use ignore::DirEntry;
+use ignore::overrides::Override;
+use ignore::overrides::OverrideBuilder;
 use rustc_hash::FxHashSet;
 use std::path::Path;
 use std::path::PathBuf;
@@ -226,48 +228,6 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     builder.git_global(true);
     builder.git_exclude(true);
 
-    // Add exclude patterns from settings if linter settings should be used
-    if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
-    }
-
     // Prefer `available_parallelism()`, with a max of 12 threads
     builder.threads(
         std::thread::available_parallelism()
@@ -278,18 +238,19 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     let walker = builder.build_parallel();
 
     // Run the `WalkParallel` to collect all R files.
-    let state = FilesState::new();
+    let excludes = use_linter_settings.then(|| Excludes::new(resolver, no_default_exclude));
+    let state = FilesState::new(excludes);
     let mut visitor_builder = FilesVisitorBuilder::new(&state);
     walker.visit(&mut visitor_builder);
 
     let mut files = state.finish();
 
-    // Post-filter: apply per-config exclude and include patterns.
+    // Post-filter: apply per-config include patterns, and exclude patterns to
+    // the files that were provided explicitly.
     //
-    // The WalkBuilder above only applies the first config's exclude patterns.
     // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
-    // resolving each file to its nearest config.
+    // these patterns must be enforced by resolving each file to its nearest
+    // config.
     if use_linter_settings {
         files.retain(|result| {
             let Ok(path) = result else {
@@ -354,14 +315,86 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Exclude patterns of each config. Those apply to the files and folders for
+/// which this config is the nearest one.
+struct Excludes<'a> {
+    resolver: &'a PathResolver<Settings>,
+    by_config: Vec<(&'a Path, Override)>,
+    /// Patterns for the paths that have no config
+    without_config: Override,
+}
+
+impl<'a> Excludes<'a> {
+    fn new(resolver: &'a PathResolver<Settings>, no_default_exclude: bool) -> Self {
+        let by_config = resolver
+            .items()
+            .iter()
+            .map(|item| {
+                let linter = &item.value().linter;
+                let overrides = Self::build(
+                    item.path(),
+                    linter.exclude.as_deref().unwrap_or_default(),
+                    linter.default_exclude.unwrap_or(true),
+                );
+                (item.path(), overrides)
+            })
+            .collect();
+
+        Self {
+            resolver,
+            by_config,
+            without_config: Self::build(Path::new("."), &[], !no_default_exclude),
+        }
+    }
+
+    fn build(root: &Path, patterns: &[String], default_exclude: bool) -> Override {
+        let defaults: &[&str] = if default_exclude {
+            DEFAULT_EXCLUDE_PATTERNS
+        } else {
+            &[]
+        };
+        let patterns = patterns
+            .iter()
+            .map(String::as_str)
+            .chain(defaults.iter().copied());
+
+        let mut override_builder = OverrideBuilder::new(root);
+        for pattern in patterns {
+            // Add as negation pattern (exclude)
+            if let Err(e) = override_builder.add(&format!("!{pattern}")) {
+                tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
+            }
+        }
+        override_builder
+            .build()
+            .unwrap_or_else(|_| Override::empty())
+    }
+
+    fn matches(&self, path: &Path, is_directory: bool) -> bool {
+        // The config in a folder is about what is in this folder, but not about
+        // the folder itself.
+        let config = path
+            .parent()
+            .and_then(|parent| self.resolver.resolve(parent))
+            .map(|item| item.path());
+        let overrides = self
+            .by_config
+            .iter()
+            .find(|(root, _)| Some(*root) == config)
+            .map_or(&self.without_config, |(_, overrides)| overrides);
+        overrides.matched(path, is_directory).is_ignore()
+    }
+}
+
 /// Shared state across the threads of the walker
-struct FilesState {
+struct FilesState<'a> {
     files: std::sync::Mutex<DiscoveredFiles>,
+    excludes: Option<Excludes<'a>>,
 }
 
-impl FilesState {
-    fn new() -> Self {
-        Self { files: std::sync::Mutex::new(Vec::new()) }
+impl<'a> FilesState<'a> {
+    fn new(excludes: Option<Excludes<'a>>) -> Self {
+        Self { files: std::sync::Mutex::new(Vec::new()), excludes }
     }
 
     fn finish(self) -> DiscoveredFiles {
@@ -374,11 +407,11 @@ impl FilesState {
 /// Implements the `build()` method of [ignore::ParallelVisitorBuilder], which
 /// [ignore::WalkParallel] utilizes to create one [FilesVisitor] per thread.
 struct FilesVisitorBuilder<'state> {
-    state: &'state FilesState,
+    state: &'state FilesState<'state>,
 }
 
 impl<'state> FilesVisitorBuilder<'state> {
-    fn new(state: &'state FilesState) -> Self {
+    fn new(state: &'state FilesState<'state>) -> Self {
         Self { state }
     }
 }
@@ -397,7 +430,7 @@ impl<'state> ignore::ParallelVisitorBuilder<'state> for FilesVisitorBuilder<'sta
 /// the collected `files` are appended to the global set of `state.files`.
 struct FilesVisitor<'state> {
     files: DiscoveredFiles,
-    state: &'state FilesState,
+    state: &'state FilesState<'state>,
 }
 
 impl ignore::ParallelVisitor for FilesVisitor<'_> {
@@ -448,6 +481,15 @@ impl ignore::ParallelVisitor for FilesVisitor<'_> {
             return ignore::WalkState::Continue;
         }
 
+        // Reject what is excluded, without looking into it if it is a directory
+        if !is_explicit
+            && let Some(excludes) = &self.state.excludes
+            && excludes.matches(path, is_directory)
+        {
+            tracing::trace!("Excluded {path}", path = path.display());
+            return ignore::WalkState::Skip;
+        }
+
         // Check if this is an R or Rmd/Qmd file
         if !is_directory && (has_r_extension(path) || has_rmd_extension(path)) {
             tracing::trace!("Included R file {path}", path = path.display());
-- 
2.43.0


From 9bfea814d1f8e4ab956d121baf2fca4f12d90fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 30/91] fix: use the jarl.toml of the user config directory

---
 crates/jarl-core/src/discovery.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index fc2308a..edc68ff 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -100,8 +100,11 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
             && let Some(toml) = find_jarl_toml_in_directory(config_dir)
         {
             let settings = parse_settings(&toml, config_dir)?;
+            // This applies to all the files that have no config in one of their
+            // parent directories, and not only to those in the config directory.
+            let root = path.ancestors().last().unwrap_or(path);
             discovered_settings.push(DiscoveredSettings {
-                directory: config_dir.clone(),
+                directory: root.to_path_buf(),
                 settings,
                 config_path: Some(toml),
             });
-- 
2.43.0


From f82ac06e2d4467b4f6a9ff4d56528fd8c361b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 31/91] fix: files reached from several paths are linted
 several times

---
 crates/jarl-core/src/discovery.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index edc68ff..13c7b79 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -248,6 +248,11 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     let mut files = state.finish();
 
+    // A file can be reached from several of the paths, e.g. `jarl check . R/foo.R`.
+    // Moreover, the walker runs in parallel, so the order of files isn't stable.
+    files.sort_by(|a, b| a.as_ref().ok().cmp(&b.as_ref().ok()));
+    files.dedup_by(|a, b| matches!((a, b), (Ok(a), Ok(b)) if a == b));
+
     // Post-filter: apply per-config include patterns, and exclude patterns to
     // the files that were provided explicitly.
     //
-- 
2.43.0


From cb5146a0bce9ae0b8517dac9bb824b1bf57579c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 32/91] fix: include patterns of folders only match at the root

---
 crates/jarl-core/src/discovery.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 13c7b79..02c697e 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -296,21 +296,19 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
             {
                 let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
                 for pattern in include_patterns {
-                    let file_pattern = if pattern.ends_with('/') {
-                        format!("{}**", pattern)
-                    } else {
-                        pattern.clone()
-                    };
-                    if let Err(e) = override_builder.add(&file_pattern) {
+                    if let Err(e) = override_builder.add(pattern) {
                         tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
                     }
                 }
                 if let Ok(overrides) = override_builder.build() {
                     let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if !matches!(
-                        overrides.matched(relative, false),
-                        ignore::Match::Whitelist(_)
-                    ) {
+                    // As for `exclude`, a pattern can match the file or one of
+                    // the folders it is in.
+                    let is_included = relative.ancestors().enumerate().any(|(i, ancestor)| {
+                        !ancestor.as_os_str().is_empty()
+                            && overrides.matched(ancestor, i > 0).is_whitelist()
+                    });
+                    if !is_included {
                         return false;
                     }
                 }
-- 
2.43.0


From a7b0dea84ba2b9d2aebbcca1692cc2fff97da051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 33/91] fix: panic when jarl.toml cannot be read

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From fb1f998fde7c6748ae475abfaeade1ad160c5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 34/91] fix: order of rules in '--statistics' changes between
 runs

---
 crates/jarl/src/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..08d1885 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -26,8 +26,8 @@ pub fn print_statistics(
     }
 
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    // Most frequent first, then by name
+    sorted.sort_by(|a, b| b.1.0.cmp(&a.1.0).then_with(|| a.0.cmp(b.0)));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From 09e46719f43d33eb04d70ed436eed154c312fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 35/91] fix: messages that change between runs

---
 .../duplicated_arguments/duplicated_arguments.rs   | 14 +++++++-------
 crates/jarl-core/src/toml.rs                       |  2 +-
 crates/jarl-core/src/vcs.rs                        |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 0f91c00..84bb92c 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -120,12 +120,12 @@ fn get_duplicates(values: &[String]) -> Vec<String> {
     for item in values {
         *counts.entry(item).or_insert(0) += 1;
     }
-    let duplicates: HashSet<String> = counts
-        .into_iter()
-        .filter(|(_, count)| *count > 1)
-        .map(|(item, _)| item.clone())
-        .collect();
 
-    let duplicates_vec: Vec<String> = duplicates.into_iter().collect();
-    duplicates_vec
+    // In the order in which they appear in the call
+    let mut seen = HashSet::new();
+    values
+        .iter()
+        .filter(|item| counts[item] > 1 && seen.insert(*item))
+        .cloned()
+        .collect()
 }
diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 038e95d..4685dc6 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -290,7 +290,7 @@ impl TomlOptions {
 
         // Reject unknown fields in `[lint]` with a clean error message that
         // only lists the primary options (not every rule sub-table name).
-        if let Some(field) = linter.unknown_fields.keys().next() {
+        if let Some(field) = linter.unknown_fields.keys().min() {
             return Err(anyhow::anyhow!(
                 "Unknown field `{field}` in `[lint]`. Expected one of: \
                  `select`, `extend-select`, `ignore`, `fixable`, `unfixable`, \
diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 7c25088..a3b949f 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -1,6 +1,6 @@
 use crate::config::Config;
 use anyhow::{Result, bail};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::Path;
 
 /// Check version control status once for multiple paths.
@@ -18,7 +18,7 @@ use std::path::Path;
 /// statuses (only once per repo).
 pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     // Group paths by their repository root
-    let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
+    let mut repo_to_paths: BTreeMap<String, Vec<String>> = BTreeMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
 
     for path in paths {
-- 
2.43.0


From d8a3d049f818f29c919b0816f79dcb2ce0a9f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 36/91] fix: errors are swallowed by '--statistics' and
 '--add-jarl-ignore'

---
 crates/jarl/src/commands/check.rs | 22 +++++++++++++++++++---
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 crates/jarl/src/statistics.rs     |  5 ++++-
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index b39dec7..91f15ed 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -22,7 +22,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -153,7 +155,8 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        let status = add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path)?;
+        return Ok(status_with_errors(status, &all_errors));
     }
 
     let (unused_fn_hidden, unused_fn_count) =
@@ -168,7 +171,9 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        let has_errors = !all_errors.is_empty();
+        let status = print_statistics(&all_diagnostics_flat, has_errors, parent_config_path)?;
+        return Ok(status_with_errors(status, &all_errors));
     }
 
     let mut stdout = std::io::stdout();
@@ -289,6 +294,17 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     Ok(ExitStatus::Failure)
 }
 
+/// Report the errors met in some files, which determine the exit status if there
+/// are any.
+fn status_with_errors(status: ExitStatus, errors: &[(String, anyhow::Error)]) -> ExitStatus {
+    print_errors(errors);
+    if errors.is_empty() {
+        status
+    } else {
+        ExitStatus::Error
+    }
+}
+
 /// Insert `# jarl-ignore` comments for all diagnostics in the given files.
 fn add_jarl_ignore_comments(
     all_diagnostics: &[(String, Vec<Diagnostic>)],
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..903d487 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -107,6 +107,18 @@ pub fn print_notes(notes: &[String]) {
     }
 }
 
+/// Prints the errors (e.g. parsing errors) met in some files.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 #[derive(Debug, Serialize)]
 struct JsonOutput<'a> {
     diagnostics: Vec<&'a Diagnostic>,
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 08d1885..3364297 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -6,10 +6,13 @@ use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    has_errors: bool,
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
     if diagnostics.is_empty() {
-        println!("All checks passed!");
+        if !has_errors {
+            println!("All checks passed!");
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From aac1abcb35b8e61ab84b15e6a1bf754fb5edcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 37/91] fix: invalid JSON output when there are no R files

---
 crates/jarl/src/commands/check.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 91f15ed..7a1a63c 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -73,11 +73,18 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         .collect::<Vec<_>>();
 
     if paths.is_empty() {
-        println!(
+        let warning = format!(
             "{}: {}",
             "Warning".yellow().bold(),
             "No R files found under the given path(s).".white().bold()
         );
+        // The output in JSON has to remain valid.
+        if args.output_format == OutputFormat::Json {
+            eprintln!("{warning}");
+            JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
+        } else {
+            println!("{warning}");
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From aabe764b448521cff2c2f5bb5237b602742aa8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 38/91] fix: escape file names and messages in Github's format

---
 crates/jarl/src/output_format.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 903d487..ef26e3a 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -245,6 +245,14 @@ impl Emitter for JsonEmitter {
     }
 }
 
+/// Escapes what has a special meaning in Github's workflow commands. See
+/// https://github.com/actions/toolkit/blob/main/packages/core/src/command.ts
+fn escape_github_data(data: &str) -> String {
+    data.replace('%', "%25")
+        .replace('\r', "%0D")
+        .replace('\n', "%0A")
+}
+
 pub struct GithubEmitter;
 
 impl Emitter for GithubEmitter {
@@ -272,11 +280,12 @@ impl Emitter for GithubEmitter {
             // - one after the "::" marker: this is so that the workflow shows
             //   the location of diagnostics when we inspect the workflow itself,
             //   without the Github annotations.
+            let file = escape_github_data(&diagnostic.filename.to_string_lossy());
             write!(
                 writer,
-                "::warning title=Jarl ({}),file={file},line={row},col={col}::{file}:{row}:{col} ",
+                "::warning title=Jarl ({}),file={},line={row},col={col}::{file}:{row}:{col} ",
                 diagnostic.message.name,
-                file = diagnostic.filename.to_string_lossy()
+                file.replace(':', "%3A").replace(',', "%2C"),
             )?;
 
             let message = if let Some(suggestion) = &diagnostic.message.suggestion {
@@ -284,6 +293,7 @@ impl Emitter for GithubEmitter {
             } else {
                 diagnostic.message.body.clone()
             };
+            let message = escape_github_data(&message);
             writeln!(writer, "[{}] {}", diagnostic.message.name, message)?;
         }
 
-- 
2.43.0


From bb94dedb5854d1e65b934d145c01aa6378f9d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 39/91] fix: messages over several lines in the concise format

---
 crates/jarl/src/output_format.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index ef26e3a..b8e5da2 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -195,6 +195,8 @@ impl Emitter for ConciseEmitter {
             } else {
                 diagnostic.message.body.clone()
             };
+            // The message can quote code, e.g. names of arguments.
+            let message = message.replace('\n', "\\n");
             let use_colors = std::env::var("NO_COLOR").is_err();
             let rule_name = if use_colors {
                 &make_hyperlink(&diagnostic.message.name)
-- 
2.43.0


From 82507589196bef568518ffea18bb50bf21e8480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 40/91] fix: exports in NAMESPACE over several lines, with
 comments or escapes are overlooked

---
 .../base/unused_function/unused_function.rs   | 187 +++++++++---------
 1 file changed, 96 insertions(+), 91 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..63c1d8b 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -55,30 +55,84 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
-    //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
-
-    // Find `directive(` in the line
-    let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
+// Split a NAMESPACE file, which has the syntax of R, into its directives (e.g.
+// `S3method`, `export`) and their arguments. They can be anywhere, e.g. in
+// `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`, and can
+// extend over several lines.
+fn parse_directives(content: &str) -> Vec<(String, Vec<String>)> {
+    let is_word = |c: &char| c.is_alphanumeric() || *c == '.' || *c == '_';
+
+    let mut directives: Vec<(String, Vec<String>)> = Vec::new();
+    // The open parentheses, and whether they belong to a directive.
+    let mut open: Vec<bool> = Vec::new();
+    let mut last_word = String::new();
+    let mut chars = content.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        let mut text = String::new();
+        match c {
+            '#' => {
+                while chars.next_if(|c| *c != '\n').is_some() {}
+                continue;
+            }
+            '"' | '\'' | '`' => {
+                while let Some(x) = chars.next_if(|x| *x != c) {
+                    // Escaped characters stand for themselves in what matters here.
+                    let x = if x == '\\' {
+                        chars.next().unwrap_or(x)
+                    } else {
+                        x
+                    };
+                    text.push(x);
+                }
+                chars.next();
+            }
+            '(' => {
+                let is_directive = matches!(
+                    last_word.as_str(),
+                    "export" | "exportPattern" | "S3method" | "exportMethods" | "exportClasses"
+                );
+                if is_directive {
+                    directives.push((std::mem::take(&mut last_word), vec![String::new()]));
+                }
+                open.push(is_directive);
+                continue;
+            }
+            ')' => {
+                open.pop();
+                last_word.clear();
+                continue;
+            }
+            c if is_word(&c) => {
+                text.push(c);
+                while let Some(c) = chars.next_if(is_word) {
+                    text.push(c);
+                }
+                last_word = text.clone();
+            }
+            c => {
+                if !c.is_whitespace() {
+                    last_word.clear();
+                }
+                text.push(c);
+            }
+        }
+
+        // Add this to the arguments if we are in a directive.
+        if open.last() == Some(&true)
+            && let Some((_, args)) = directives.last_mut()
+        {
+            if text == "," && c == ',' {
+                args.push(String::new());
+            } else if !c.is_whitespace()
+                && let Some(arg) = args.last_mut()
+            {
+                arg.push_str(&text);
+            }
         }
     }
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+    directives
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -89,83 +143,34 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
-
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
-            continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
+    for (directive, mut args) in parse_directives(content) {
+        match directive.as_str() {
+            "exportPattern" => {
+                for pattern in args.iter().filter(|x| !x.is_empty()) {
+                    if let Ok(re) = Regex::new(pattern) {
+                        for &name in all_names {
+                            if re.is_match(name) {
                                 exports.insert(name.to_string());
                             }
                         }
                     }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
-                            }
-                        }
-                    }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
-                            }
-                        }
-                    }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
-                        }
+                }
+            }
+            "S3method" => {
+                // S3method(generic, class) or
+                // S3method(pkg::generic, class) or
+                // S3method(generic, class, method_fn)
+                if args.len() >= 3 {
+                    if !args[2].is_empty() {
+                        exports.insert(args.swap_remove(2));
                     }
-                    _ => {}
+                } else if args.len() == 2 {
+                    // Strip optional pkg:: or pkg::: prefix
+                    let generic = args[0].rsplit_once("::").map_or(&*args[0], |(_, g)| g);
+                    exports.insert(format!("{generic}.{class}", class = args[1]));
                 }
-                break;
             }
+            _ => exports.extend(args.into_iter().filter(|x| !x.is_empty())),
         }
     }
 
-- 
2.43.0


From 12a03a9320c52c8891deca015e4ca450b76b0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 41/91] fix: usages of functions in packages are overlooked

Functions were reported as unused although they are used, because of names
outside of ASCII, files in other encodings, C++ and preprocessor code,
subfolders of R/, packages within tests, or the name of a folder above the
package.
---
 .../base/unused_function/unused_function.rs   | 126 ++++++------
 crates/jarl-core/src/package.rs               | 184 +++++++-----------
 2 files changed, 138 insertions(+), 172 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 63c1d8b..e266a24 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -186,37 +186,34 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
 /// `name(` call patterns, we also cover indirect references like
 /// `do.call("name", ...)`, `lapply(xs, name)`, `match.fun(name)`, etc.
 pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
-    let mut symbols: HashMap<&str, usize> = HashMap::new();
-
-    for line in content.lines() {
+    count_symbols(content.lines().filter(|line| {
         let trimmed = line.trim_start();
         // Skip regular comments but keep roxygen comments (#') since they
         // may reference internal functions (e.g. via \Sexpr).
-        if trimmed.starts_with('#') && !trimmed.starts_with("#'") {
-            continue;
-        }
+        !trimmed.starts_with('#') || trimmed.starts_with("#'")
+    }))
+}
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
-            // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
-                *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
-            }
+/// Same as `scan_symbols()` for C/C++ files, where `#` starts a preprocessor
+/// directive.
+pub(crate) fn scan_cpp_symbols(content: &str) -> HashMap<String, usize> {
+    count_symbols(content.lines())
+}
+
+fn count_symbols<'a>(lines: impl Iterator<Item = &'a str>) -> HashMap<String, usize> {
+    let mut symbols: HashMap<&str, usize> = HashMap::new();
+
+    for line in lines {
+        let mut rest = line;
+
+        // R identifiers start with a letter, `.`, or `_`
+        while let Some(start) = rest.find(|c: char| c.is_alphabetic() || c == '.' || c == '_') {
+            rest = &rest[start..];
+            let end = rest
+                .find(|c: char| !c.is_alphanumeric() && c != '.' && c != '_')
+                .unwrap_or(rest.len());
+            *symbols.entry(&rest[..end]).or_insert(0) += 1;
+            rest = &rest[end..];
         }
     }
 
@@ -250,29 +247,31 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "cxx" | "h" | "hh" | "hpp")
     )
 }
 
-/// Extract a human-readable scope directory from a file path, e.g.
+/// Extract a human-readable scope directory from a path in a package, e.g.
 /// `"tests/"` or `"inst/tests/"`. Used in help messages.
-fn scope_dir_from_path(rel_path: &Path) -> String {
-    let components: Vec<_> = rel_path
-        .components()
-        .map(|c| c.as_os_str().to_string_lossy().to_string())
-        .collect();
-    for (i, comp) in components.iter().enumerate() {
-        if comp == "tests" {
-            return "tests/".to_string();
-        }
-        if comp == "inst"
-            && let Some(next) = components.get(i + 1)
-            && (next == "tinytest" || next == "tests")
-        {
-            return format!("inst/{next}/");
-        }
+fn scope_dir_from_path(path_in_package: &Path) -> &'static str {
+    if path_in_package.starts_with("inst/tinytest") {
+        "inst/tinytest/"
+    } else if path_in_package.starts_with("inst/tests") {
+        "inst/tests/"
+    } else {
+        "tests/"
     }
-    "tests/".to_string()
+}
+
+/// If a function name contains a dot, it may be an S3 method dispatched
+/// implicitly (e.g. `print.myclass` is called when `print()` runs on an object
+/// of class "myclass"). Since class names can contain dots (e.g.
+/// `data.table`), we try every split point: for `sort_by.data.table` we check
+/// if `sort_by` or `sort_by.data` is a known symbol. If any prefix is, assume
+/// it could be S3 dispatch.
+fn is_probable_s3_method(name: &str, is_symbol: impl Fn(&str) -> bool) -> bool {
+    name.match_indices('.')
+        .any(|(pos, _)| is_symbol(&name[..pos]))
 }
 
 /// Compute unused functions from pre-scanned shared file data.
@@ -368,8 +367,13 @@ pub(crate) fn compute_unused_from_shared(
             ".First.lib",
         ]);
 
-        // All symbols across R/ files (used for S3 method heuristic).
-        let all_symbols: HashSet<&str> = total_occurrences.keys().copied().collect();
+        // All symbols across R/ files and its subfolders (used for S3 method
+        // heuristic).
+        let all_symbols: HashSet<&str> = file_data
+            .iter()
+            .filter(|f| f.path_in_package.starts_with("R"))
+            .flat_map(|f| f.symbol_counts.keys().map(|s| s.as_str()))
+            .collect();
 
         for file in &r_files {
             let mut unused: Vec<(String, TextRange, String)> = Vec::new();
@@ -390,21 +394,9 @@ pub(crate) fn compute_unused_from_shared(
                     continue;
                 }
 
-                // Skip probable internal S3 methods. If a function name
-                // contains a dot, it may be an S3 method dispatched implicitly
-                // (e.g. `print.myclass` is called when `print()` runs on an
-                // object of class "myclass"). Since class names can contain
-                // dots (e.g. `data.table`), we try every split point: for
-                // `sort_by.data.table` we check if `sort_by` or `sort_by.data`
-                // appears as a symbol in the package. If any prefix matches,
-                // assume it could be S3 dispatch and skip.
-                if name.contains('.') {
-                    let is_probable_s3 = name
-                        .match_indices('.')
-                        .any(|(pos, _)| all_symbols.contains(&name[..pos]));
-                    if is_probable_s3 {
-                        continue;
-                    }
+                // Skip probable internal S3 methods.
+                if is_probable_s3_method(name, |prefix| all_symbols.contains(prefix)) {
+                    continue;
                 }
 
                 // A definition contributes exactly one occurrence to
@@ -453,6 +445,9 @@ pub(crate) fn compute_unused_from_shared(
                 }
             }
 
+            let is_symbol =
+                |name: &str| scope_occurrences.contains_key(name) || all_symbols.contains(name);
+
             for file in scope_files {
                 let mut unused: Vec<(String, TextRange, String)> = Vec::new();
 
@@ -462,11 +457,16 @@ pub(crate) fn compute_unused_from_shared(
                         continue;
                     }
 
+                    // Skip probable S3 methods of generics used here or in R/.
+                    if is_probable_s3_method(name, is_symbol) {
+                        continue;
+                    }
+
                     let occurrences = scope_occurrences.get(name.as_str()).copied().unwrap_or(0);
                     let definitions = scope_definitions.get(name.as_str()).copied().unwrap_or(0);
 
                     if occurrences <= definitions {
-                        let scope_dir = scope_dir_from_path(&file.rel_path);
+                        let scope_dir = scope_dir_from_path(&file.path_in_package);
                         let help = format!(
                             "Defined at {path}:{line}:{col} but never called in {scope_dir}",
                             path = file.rel_path.display()
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..1e7fd9d 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -10,7 +10,7 @@ use crate::lints::base::duplicated_function_definition::duplicated_function_defi
     compute_duplicates_from_shared, scan_top_level_assignments,
 };
 use crate::lints::base::unused_function::unused_function::{
-    collect_files, compute_unused_from_shared, has_cpp_extension, scan_symbols,
+    collect_files, compute_unused_from_shared, has_cpp_extension, scan_cpp_symbols, scan_symbols,
 };
 use crate::rule_set::Rule;
 
@@ -24,7 +24,7 @@ pub(crate) enum FileScope {
     Tests,
     /// inst/tinytest/ or inst/tests/ — definitions checked only within this scope.
     Inst,
-    /// src/ — C/C++ files; no definition checking.
+    /// src/ — C/C++ files, and subfolders of R/; no definition checking.
     Src,
 }
 
@@ -32,6 +32,8 @@ pub(crate) enum FileScope {
 pub(crate) struct SharedFileData {
     pub root_key: String,
     pub rel_path: PathBuf,
+    /// Path from the package root.
+    pub path_in_package: PathBuf,
     /// Absolute path to the package root (directory containing DESCRIPTION).
     pub package_root: PathBuf,
     pub assignments: Vec<(String, TextRange, u32, u32)>,
@@ -107,7 +109,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
+    let mut extra_files: Vec<(PathBuf, &Path)> = Vec::new();
     let mut excluded_r_files: Vec<PathBuf> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
@@ -129,7 +131,13 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         let r_dir = root.join("R");
         if r_dir.is_dir() {
             for file in collect_files(&r_dir, has_r_extension) {
-                if let Ok(canon) = std::fs::canonicalize(&file)
+                // R/unix/ and R/windows/ are alternatives to each other, so they
+                // only matter for the functions they use.
+                if file.parent() != Some(&r_dir) {
+                    if check_unused {
+                        extra_files.push((file, root));
+                    }
+                } else if let Ok(canon) = std::fs::canonicalize(&file)
                     && !r_dir_file_set.contains(&canon)
                 {
                     excluded_r_files.push(file);
@@ -142,13 +150,15 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
             for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    let files = collect_files(&dir, has_r_extension);
+                    extra_files.extend(files.into_iter().map(|f| (f, root.as_path())));
                 }
             }
             // Collect C/C++ files in src/
             let src_dir = root.join("src");
             if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
+                let files = collect_files(&src_dir, has_cpp_extension);
+                extra_files.extend(files.into_iter().map(|f| (f, root.as_path())));
             }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
@@ -157,63 +167,24 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         }
     }
 
-    // Build the list of all files to scan in parallel, each tagged with its scope.
-    let all_files: Vec<(&Path, FileScope)> = r_dir_files
+    // Build the list of all files to scan in parallel, each with its package root.
+    let all_files: Vec<(&Path, &Path)> = r_dir_files
         .iter()
-        .map(|p| (p.as_path(), FileScope::R))
-        .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
-        }))
+        .copied()
+        .chain(excluded_r_files.iter())
+        .filter_map(|p| Some((p.as_path(), p.parent()?.parent()?)))
+        .chain(extra_files.iter().map(|(p, root)| (p.as_path(), *root)))
         .collect();
 
     // Single parallel scan: read each file once. All R files get
     // scan_top_level_assignments; Src files only get scan_symbols.
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
-        .filter_map(|(path, scope)| {
-            let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
-                HashMap::new()
-            };
-
-            let assignments = match scope {
-                FileScope::Src => Vec::new(),
-                _ => scan_top_level_assignments(&content),
-            };
-
-            if *scope == FileScope::R {
-                let r_dir = path.parent()?;
-                let package_root = r_dir.parent()?.to_path_buf();
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: FileScope::R,
-                })
-            } else {
-                // Extra file: figure out the package root. The file is
-                // somewhere under root/tests/, root/inst/, or root/src/.
-                let package_root = find_package_root(path)?;
-                let r_dir = package_root.join("R");
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(&r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: *scope,
-                })
-            }
+        .filter_map(|(path, package_root)| {
+            // Files in other encodings cannot be linted but still use functions.
+            let content = std::fs::read(path).ok()?;
+            let content = String::from_utf8_lossy(&content);
+            Some(scan_file(path, package_root, &content, check_unused))
         })
         .collect();
 
@@ -236,28 +207,55 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
-/// Determine the `FileScope` for a non-R/ file based on its path.
-fn file_scope_from_path(path: &Path) -> FileScope {
-    let components: Vec<_> = path
+fn scan_file(
+    path: &Path,
+    package_root: &Path,
+    content: &str,
+    with_symbols: bool,
+) -> SharedFileData {
+    let path_in_package = path.strip_prefix(package_root).unwrap_or(path);
+    let scope = file_scope_from_path(path_in_package);
+
+    let symbol_counts = match with_symbols {
+        true if has_cpp_extension(path) => scan_cpp_symbols(content),
+        true => scan_symbols(content),
+        false => HashMap::new(),
+    };
+
+    // What packages in the tests of a package define belongs to them only.
+    let is_nested = scope != FileScope::R
+        && find_package_root(path).is_some_and(|root| root.as_path() != package_root);
+
+    let assignments = match scope {
+        FileScope::Src => Vec::new(),
+        _ if is_nested => Vec::new(),
+        _ => scan_top_level_assignments(content),
+    };
+
+    SharedFileData {
+        root_key: crate::fs::relativize_path(package_root.join("R")),
+        rel_path: PathBuf::from(crate::fs::relativize_path(path)),
+        path_in_package: path_in_package.to_path_buf(),
+        package_root: package_root.to_path_buf(),
+        assignments,
+        symbol_counts,
+        scope,
+    }
+}
+
+/// Determine the `FileScope` for a file based on its path from the package root.
+fn file_scope_from_path(path_in_package: &Path) -> FileScope {
+    let components: Vec<_> = path_in_package
         .components()
         .map(|c| c.as_os_str().to_string_lossy().to_string())
         .collect();
-    for (i, comp) in components.iter().enumerate() {
-        match comp.as_str() {
-            "tests" => return FileScope::Tests,
-            "inst" => {
-                if let Some(next) = components.get(i + 1)
-                    && (next == "tinytest" || next == "tests")
-                {
-                    return FileScope::Inst;
-                }
-            }
-            "src" => return FileScope::Src,
-            _ => {}
-        }
+    let components: Vec<&str> = components.iter().map(|c| c.as_str()).collect();
+    match components.as_slice() {
+        ["R", _] => FileScope::R,
+        ["R" | "src", ..] => FileScope::Src,
+        ["inst", "tinytest" | "tests", ..] => FileScope::Inst,
+        _ => FileScope::Tests,
     }
-    // Fallback: treat unknown extra files as Tests scope
-    FileScope::Tests
 }
 
 /// Walk up from a file path to find the package root (directory containing DESCRIPTION).
@@ -281,25 +279,9 @@ pub(crate) fn scan_r_package_paths(paths: &[PathBuf], with_symbols: bool) -> Vec
         .filter(|p| has_r_extension(p))
         .filter(|p| is_in_r_package(p).unwrap_or(false))
         .filter_map(|path| {
-            let r_dir = path.parent()?;
-            let package_root = r_dir.parent()?.to_path_buf();
-            let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-            let root_key = crate::fs::relativize_path(r_dir);
             let content = std::fs::read_to_string(path).ok()?;
-            let assignments = scan_top_level_assignments(&content);
-            let symbol_counts = if with_symbols {
-                scan_symbols(&content)
-            } else {
-                HashMap::new()
-            };
-            Some(SharedFileData {
-                root_key,
-                rel_path,
-                package_root,
-                assignments,
-                symbol_counts,
-                scope: FileScope::R,
-            })
+            let package_root = path.parent()?.parent()?;
+            Some(scan_file(path, package_root, &content, with_symbols))
         })
         .collect()
 }
@@ -313,27 +295,11 @@ pub(crate) fn scan_extra_package_paths(
     paths: &[PathBuf],
     package_root: &Path,
 ) -> Vec<SharedFileData> {
-    let r_dir = package_root.join("R");
-    let root_key = crate::fs::relativize_path(&r_dir);
     paths
         .iter()
         .filter_map(|path| {
             let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = scan_symbols(&content);
-            let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-            let scope = file_scope_from_path(path);
-            let assignments = match scope {
-                FileScope::Src => Vec::new(),
-                _ => scan_top_level_assignments(&content),
-            };
-            Some(SharedFileData {
-                root_key: root_key.clone(),
-                rel_path,
-                package_root: package_root.to_path_buf(),
-                assignments,
-                symbol_counts,
-                scope,
-            })
+            Some(scan_file(path, package_root, &content, true))
         })
         .collect()
 }
-- 
2.43.0


From d77b3a75debd69ace14b80e105527789e11d2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 42/91] fix: crash and wrong places of package diagnostics
 after fixes

---
 crates/jarl-core/src/check.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 07e5e5f..00df1eb 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -39,14 +39,41 @@ pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Err
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
+    let has_fixes = config.apply_fixes || config.apply_unsafe_fixes;
+    let has_package_diagnostics =
+        !pkg.duplicate_assignments.is_empty() || !pkg.unused_functions.is_empty();
 
+    if !has_fixes || !has_package_diagnostics {
+        return check_paths(&config, |file| {
+            check_path(file, Arc::clone(&config), Arc::clone(&pkg))
+        });
+    }
+
+    // Fixes move the code that package-level diagnostics are about, so those
+    // have to be searched again once all files are fixed.
+    let no_pkg = Arc::new(PackageAnalysis::default());
+    let fixed = check_paths(&config, |file| {
+        check_path(file, Arc::clone(&config), Arc::clone(&no_pkg))
+    });
+
+    let pkg = Arc::new(compute_package_analysis(&config.paths, &config));
+    check_paths(&config, |file| {
+        lint_only(file, Arc::clone(&config), Arc::clone(&pkg))
+    })
+    .into_iter()
+    .zip(fixed)
+    .map(|((file, left), (_, fixed))| (file, fixed.and(left)))
+    .collect()
+}
+
+fn check_paths(
+    config: &Config,
+    check: impl Fn(&PathBuf) -> Result<Vec<Diagnostic>> + Sync,
+) -> Vec<(String, Result<Vec<Diagnostic>>)> {
     config
         .paths
         .par_iter()
-        .map(|file| {
-            let res = check_path(file, Arc::clone(&config), Arc::clone(&pkg));
-            (relativize_path(file), res)
-        })
+        .map(|file| (relativize_path(file), check(file)))
         .collect()
 }
 
-- 
2.43.0


From e8935cbd928ccb6dd0c3e19875810d3c08c76469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 43/91] fix: files excluded in the editor differ from those
 excluded by 'jarl check'

---
 crates/jarl-core/src/discovery.rs | 69 +++++++++++++++++++++----------
 crates/jarl-lsp/src/lint.rs       |  7 ++--
 crates/jarl-lsp/src/utils.rs      | 64 ----------------------------
 3 files changed, 51 insertions(+), 89 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 02c697e..9aa80c9 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -291,27 +291,8 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
             }
 
             // Include filter: if set, only keep files matching at least one pattern
-            if let Some(include_patterns) = &settings.linter.include
-                && !include_patterns.is_empty()
-            {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in include_patterns {
-                    if let Err(e) = override_builder.add(pattern) {
-                        tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    // As for `exclude`, a pattern can match the file or one of
-                    // the folders it is in.
-                    let is_included = relative.ancestors().enumerate().any(|(i, ancestor)| {
-                        !ancestor.as_os_str().is_empty()
-                            && overrides.matched(ancestor, i > 0).is_whitelist()
-                    });
-                    if !is_included {
-                        return false;
-                    }
-                }
+            if !is_included(path, root, settings) {
+                return false;
             }
 
             true
@@ -321,6 +302,52 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Whether `path` matches at least one of the `include` patterns, if there are any.
+fn is_included(path: &Path, root: &Path, settings: &Settings) -> bool {
+    let Some(include_patterns) = &settings.linter.include else {
+        return true;
+    };
+    if include_patterns.is_empty() {
+        return true;
+    }
+
+    let mut override_builder = OverrideBuilder::new(root);
+    for pattern in include_patterns {
+        if let Err(e) = override_builder.add(pattern) {
+            tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
+        }
+    }
+    let Ok(overrides) = override_builder.build() else {
+        return true;
+    };
+
+    // As for `exclude`, a pattern can match the file or one of the folders it is in.
+    let relative = path.strip_prefix(root).unwrap_or(path);
+    relative.ancestors().enumerate().any(|(i, ancestor)| {
+        !ancestor.as_os_str().is_empty() && overrides.matched(ancestor, i > 0).is_whitelist()
+    })
+}
+
+/// Whether the config of a file excludes it, e.g. with `exclude`, `include`, or
+/// `default-exclude`. This is what happens to this file when checking the folder
+/// in which this config is.
+pub fn is_excluded_by_settings(path: &Path, resolver: &PathResolver<Settings>) -> bool {
+    let path = fs::normalize_path(path);
+    let Some(item) = resolver.resolve(&path) else {
+        return false;
+    };
+    let root = item.path();
+
+    let excludes = Excludes::new(resolver, false);
+    let is_excluded = path
+        .ancestors()
+        .take_while(|ancestor| *ancestor != root)
+        .enumerate()
+        .any(|(i, ancestor)| excludes.matches(ancestor, i > 0));
+
+    is_excluded || !is_included(&path, root, item.value())
+}
+
 /// Exclude patterns of each config. Those apply to the files and folders for
 /// which this config is the nearest one.
 struct Excludes<'a> {
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..3da7121 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -12,13 +12,12 @@ use std::path::{Path, PathBuf};
 use crate::DIAGNOSTIC_SOURCE;
 use crate::document::PositionEncoding;
 use crate::session::DocumentSnapshot;
-use crate::utils::should_exclude_file_based_on_settings;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
 use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
-use jarl_core::discovery::{DiscoveredSettings, discover_settings};
+use jarl_core::discovery::{DiscoveredSettings, discover_settings, is_excluded_by_settings};
 use jarl_core::fs::{has_r_extension, relativize_path};
 use jarl_core::package::{compute_package_analysis, is_in_r_package};
 use jarl_core::settings::Settings;
@@ -111,8 +110,8 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     }
 
     // Check if the file should be excluded based on settings in jarl.toml
-    // (`exclude` or `default-exclude`).
-    if should_exclude_file_based_on_settings(file_path, &resolver) {
+    // (`exclude`, `include` or `default-exclude`).
+    if is_excluded_by_settings(file_path, &resolver) {
         tracing::debug!("Skipping linting for excluded file: {:?}", file_path);
         return Ok(empty);
     }
diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..d5a6ff8 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -2,10 +2,6 @@
 
 use std::path::Path;
 
-use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
-use jarl_core::settings::Settings;
-
 /// Check if a path string matches an exclusion pattern
 ///
 /// Patterns can be:
@@ -101,66 +97,6 @@ pub fn should_exclude_file(file_path: &Path, patterns: &[&str]) -> bool {
     false
 }
 
-/// Check if a file should be excluded based on settings from jarl.toml
-///
-/// This function checks both the `default-exclude` option (which is `true` by default)
-/// and any custom `exclude` patterns specified in the jarl.toml configuration.
-///
-/// # Arguments
-/// * `file_path` - The path to the file to check
-/// * `resolver` - The path resolver containing the discovered settings
-///
-/// # Returns
-/// `true` if the file should be excluded from linting, `false` otherwise
-pub fn should_exclude_file_based_on_settings(
-    file_path: &Path,
-    resolver: &PathResolver<Settings>,
-) -> bool {
-    // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-    }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b7b276e4e5efe9893e60cfdf06afcccc5c92cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 44/91] fix: outdated diagnostics replace recent ones in the
 editor

---
 crates/jarl-lsp/src/client.rs | 31 +++++++++++++++++++++++++++++++
 crates/jarl-lsp/src/server.rs | 30 ++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-lsp/src/client.rs b/crates/jarl-lsp/src/client.rs
index 1e68e84..08e3935 100644
--- a/crates/jarl-lsp/src/client.rs
+++ b/crates/jarl-lsp/src/client.rs
@@ -23,6 +23,9 @@ pub struct Client {
     /// Whether we've already shown the unused_function threshold notification
     /// this session. Shared across all clones so it fires at most once.
     unused_fn_threshold_notified: Arc<std::sync::atomic::AtomicBool>,
+    /// Number of times the diagnostics of each document became outdated, because
+    /// it was saved again or closed.
+    diagnostics_generations: Arc<std::sync::Mutex<HashMap<types::Url, u64>>>,
 }
 
 /// Information about a pending request sent to the client
@@ -40,6 +43,7 @@ impl Client {
             request_id_counter: Arc::new(std::sync::atomic::AtomicI32::new(1)),
             pending_requests: Arc::new(std::sync::Mutex::new(HashMap::new())),
             unused_fn_threshold_notified: Arc::new(std::sync::atomic::AtomicBool::new(false)),
+            diagnostics_generations: Arc::new(std::sync::Mutex::new(HashMap::new())),
         }
     }
 
@@ -136,6 +140,33 @@ impl Client {
         )
     }
 
+    /// Mark the diagnostics that are being computed for this document as outdated.
+    /// Returns the generation of those that are computed from now on.
+    pub fn next_diagnostics_generation(&self, uri: &types::Url) -> u64 {
+        let mut generations = self.diagnostics_generations.lock().unwrap();
+        let generation = generations.entry(uri.clone()).or_default();
+        *generation += 1;
+        *generation
+    }
+
+    /// Publish diagnostics unless they became outdated while they were computed.
+    pub fn publish_diagnostics_of_generation(
+        &self,
+        uri: types::Url,
+        diagnostics: Vec<types::Diagnostic>,
+        version: Option<i32>,
+        generation: u64,
+    ) -> Result<()> {
+        // The lock is held while publishing, so that nothing more recent can be
+        // published in between.
+        let generations = self.diagnostics_generations.lock().unwrap();
+        if generations.get(&uri) != Some(&generation) {
+            tracing::debug!("Skipping outdated diagnostics of {uri}");
+            return Ok(());
+        }
+        self.publish_diagnostics(uri, diagnostics, version)
+    }
+
     /// Convenience method to show a message to the user
     pub fn show_message(&self, message: &str, message_type: types::MessageType) -> Result<()> {
         self.send_notification::<types::notification::ShowMessage>(types::ShowMessageParams {
diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..3d4a686 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -42,6 +42,7 @@ pub enum Task {
     LintDocument {
         snapshot: Box<DocumentSnapshot>,
         client: Client,
+        generation: u64,
     },
     /// Handle a code action request
     HandleCodeActionRequest {
@@ -317,9 +318,14 @@ impl Server {
                 session.close_document(params.text_document.uri.clone())?;
 
                 // Clear diagnostics for the closed document
-                session
-                    .client()
-                    .publish_diagnostics(params.text_document.uri, vec![], None)?;
+                let client = session.client();
+                let generation = client.next_diagnostics_generation(&params.text_document.uri);
+                client.publish_diagnostics_of_generation(
+                    params.text_document.uri,
+                    vec![],
+                    None,
+                    generation,
+                )?;
                 Ok(())
             }
             types::notification::DidSaveTextDocument::METHOD => {
@@ -329,9 +335,12 @@ impl Server {
                 tracing::debug!("Document saved: {}", params.text_document.uri);
 
                 if let Some(snapshot) = session.take_snapshot(params.text_document.uri) {
+                    let client = session.client().clone();
+                    let generation = client.next_diagnostics_generation(snapshot.uri());
                     task_sender.send(Task::LintDocument {
                         snapshot: Box::new(snapshot),
-                        client: session.client().clone(),
+                        client,
+                        generation,
                     })?;
                 }
                 Ok(())
@@ -351,8 +360,8 @@ impl Server {
     ) {
         while let Ok(task) = task_receiver.recv() {
             match task {
-                Task::LintDocument { snapshot, client } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client) {
+                Task::LintDocument { snapshot, client, generation } => {
+                    if let Err(e) = Self::handle_lint_task(*snapshot, client, generation) {
                         tracing::error!("Error in lint task: {}", e);
                     }
                 }
@@ -364,7 +373,11 @@ impl Server {
     }
 
     /// Handle linting a document and publishing diagnostics
-    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
+    fn handle_lint_task(
+        snapshot: DocumentSnapshot,
+        client: Client,
+        generation: u64,
+    ) -> LspResult<()> {
         let start = Instant::now();
         let output = lint::lint_document(&snapshot)?;
         let elapsed = start.elapsed();
@@ -380,10 +393,11 @@ impl Server {
             let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
         }
 
-        client.publish_diagnostics(
+        client.publish_diagnostics_of_generation(
             snapshot.uri().clone(),
             output.diagnostics,
             Some(snapshot.version()),
+            generation,
         )?;
         Ok(())
     }
-- 
2.43.0


From 4fea60c14b445b4362e587c32ad161fa3b3c30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 45/91] fix: old diagnostics stay in the editor when a document
 cannot be parsed any more

---
 crates/jarl-lsp/src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 3d4a686..0400ad9 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -379,7 +379,12 @@ impl Server {
         generation: u64,
     ) -> LspResult<()> {
         let start = Instant::now();
-        let output = lint::lint_document(&snapshot)?;
+        let output = lint::lint_document(&snapshot).unwrap_or_else(|e| {
+            // The document cannot be linted, e.g. because of a syntax error. Do not
+            // keep the diagnostics of what was saved previously.
+            tracing::error!("Error when linting {}: {}", snapshot.uri(), e);
+            lint::LintOutput { diagnostics: Vec::new(), unused_fn_hidden_count: 0 }
+        });
         let elapsed = start.elapsed();
 
         tracing::debug!(
-- 
2.43.0


From 2051c5a2a8a7012443fd0cf3d179a012e9099a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 46/91] fix: position of suppression comments after non-ASCII
 characters in the editor

---
 crates/jarl-lsp/src/server.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 0400ad9..c60cd02 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -579,7 +579,7 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
+            let insert_pos = snapshot.offset_to_position(insert_point.offset).ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -664,7 +664,7 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = snapshot.offset_to_position(chunk.start_byte).ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -687,15 +687,6 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
     /// Get the text of a specific line
     fn get_line_text(content: &str, line_number: usize) -> Option<String> {
         content.lines().nth(line_number).map(|s| s.to_string())
-- 
2.43.0


From a64cec2fc9e5ec8259429481fb48d88d4a70a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 47/91] fix: no response to code action requests with invalid
 parameters

---
 crates/jarl-lsp/src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index c60cd02..43adcb1 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -227,7 +227,16 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid parameters: {e}").to_lsp_error_with_code(-32602),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From 00d4ea682042b13a7f45a9191eb0b2437435cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 48/91] fix: exit code when the editor exits without shutting
 down the language server

---
 crates/jarl-lsp/src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 43adcb1..4664dd0 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -280,10 +280,10 @@ impl Server {
             types::notification::Exit::METHOD => {
                 if session.is_shutdown_requested() {
                     tracing::info!("Clean shutdown requested");
-                } else {
-                    tracing::warn!("Exit without shutdown - this is a protocol violation");
+                    std::process::exit(0);
                 }
-                std::process::exit(0);
+                tracing::warn!("Exit without shutdown - this is a protocol violation");
+                std::process::exit(1);
             }
             types::notification::DidOpenTextDocument::METHOD => {
                 let params: types::DidOpenTextDocumentParams =
-- 
2.43.0


From a84ac84eef7e94116ed7bd56ea33bc40619d6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 49/91] fix: places of package diagnostics in documents with
 unsaved changes

---
 crates/jarl-core/src/package.rs | 16 ++++++++++++++++
 crates/jarl-lsp/src/lint.rs     |  5 +++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1e7fd9d..6c0c8d4 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -65,6 +65,17 @@ pub struct PackageAnalysis {
 /// the unused-function rule is enabled). The results are then dispatched to
 /// the duplicate and unused-function checkers.
 pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAnalysis {
+    compute_package_analysis_with_buffer(paths, config, None)
+}
+
+/// Same as [compute_package_analysis()], but the content of one of the files is
+/// the one provided and not the one on disk. This is for files that are being
+/// edited.
+pub fn compute_package_analysis_with_buffer(
+    paths: &[PathBuf],
+    config: &Config,
+    buffer: Option<(&Path, &str)>,
+) -> PackageAnalysis {
     let rules = &config.rules_to_apply;
     let check_duplicates = rules.contains(&Rule::DuplicatedFunctionDefinition);
     let check_unused = rules.contains(&Rule::UnusedFunction);
@@ -181,6 +192,11 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
         .filter_map(|(path, package_root)| {
+            if let Some((buffer_path, content)) = buffer
+                && buffer_path == *path
+            {
+                return Some(scan_file(path, package_root, content, check_unused));
+            }
             // Files in other encodings cannot be linted but still use functions.
             let content = std::fs::read(path).ok()?;
             let content = String::from_utf8_lossy(&content);
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 3da7121..29dcf78 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -19,7 +19,7 @@ use jarl_core::config::{ArgsConfig, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
 use jarl_core::discovery::{DiscoveredSettings, discover_settings, is_excluded_by_settings};
 use jarl_core::fs::{has_r_extension, relativize_path};
-use jarl_core::package::{compute_package_analysis, is_in_r_package};
+use jarl_core::package::{compute_package_analysis_with_buffer, is_in_r_package};
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -135,7 +135,8 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
 
     // Compute package-level analysis using the real file's sibling R files.
     let pkg = if let Some(package_files) = collect_sibling_r_files(file_path) {
-        compute_package_analysis(&package_files, &config)
+        // What is on disk can differ from the content of the document.
+        compute_package_analysis_with_buffer(&package_files, &config, Some((file_path, content)))
     } else {
         Default::default()
     };
-- 
2.43.0


From 8d81a9a4167b3301f89a27170f79ea59e7482e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 50/91] fix: suppression comments in R Markdown are inserted at
 the wrong place in the editor

---
 crates/jarl-core/src/suppression_edit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..8c4b000 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -436,8 +436,9 @@ pub fn create_suppression_edit_in_rmd(
             let local_end = diagnostic_end.saturating_sub(chunk.start_byte);
             let mut insert_point =
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
-            // Remap chunk-local offset to file-level offset.
+            // Remap chunk-local offset and line to file-level ones.
             insert_point.offset += chunk.start_byte;
+            insert_point.line += count_lines_to(file_content, chunk.start_byte);
             let comment_text = format_suppression_comments(
                 &[rule_name],
                 explanation,
-- 
2.43.0


From 8e6e2fa52ea8fcb3de3fae11aecc12045b9d24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 51/91] fix: error status when the editor shuts down the
 language server

---
 crates/jarl-lsp/src/server.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 4664dd0..1c61f0b 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -180,10 +180,6 @@ impl Server {
                     }
                 }
             }
-
-            if session.is_shutdown_requested() {
-                break;
-            }
         }
 
         tracing::info!("Main loop stopped");
-- 
2.43.0


From ac371b9af3efe7cd9bead7503012a149cc348c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 52/91] fix: unreachable code after 'if (TRUE)' with a
 terminating body is missed or reported in pieces

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5cc506..006750c 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -427,8 +427,9 @@ impl<'a> CfgBuilder<'a> {
                     }
                 }
             }
-        } else {
-            // No else branch, just connect to after_if
+        } else if constant_value != Some(true) {
+            // No else branch, just connect to after_if (unless the condition
+            // is always true, in which case this path is never taken)
             if let Some(b) = self.cfg.block_mut(else_block) {
                 b.terminator = Terminator::Goto;
             }
-- 
2.43.0


From e789243c2c2c836607821f9ce3d09d3cf89a9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 53/91] fix: reason given for unreachable code after an if/else
 that terminates in all branches

---
 .../src/lints/base/unreachable_code/README.md |   4 +-
 .../base/unreachable_code/cfg/builder.rs      |   1 +
 .../lints/base/unreachable_code/cfg/graph.rs  |   4 +
 .../base/unreachable_code/cfg/reachability.rs | 119 +-----------------
 4 files changed, 11 insertions(+), 117 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/README.md b/crates/jarl-core/src/lints/base/unreachable_code/README.md
index 3a98f95..0a0f1b1 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/README.md
+++ b/crates/jarl-core/src/lints/base/unreachable_code/README.md
@@ -179,8 +179,8 @@ For each unreachable block, we determine **why** it's unreachable by examining i
    - If a predecessor has a `Break` terminator → `AfterBreak`
    - If a predecessor has a `Next` terminator → `AfterNext`
 
-2. **Check if predecessor is a branch where all successors terminate** → `AfterBranchTerminating`:
-   - For if/else where both branches end with `return`/`stop()`, traverse all branch successors to verify they all terminate
+2. **Check if the block follows an if/else where all branches terminate** → `AfterBranchTerminating`:
+   - When building an if/else of which no branch continues to the next statement, the builder marks the block that follows it
    - Example: `if (x) { return(1) } else { return(2) }` followed by unreachable code
 
 3. **Check for dead branches** → `DeadBranch`:
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index 006750c..01d2445 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -443,6 +443,7 @@ impl<'a> CfgBuilder<'a> {
             && let Some(after_block) = self.cfg.block_mut(after_if)
         {
             after_block.predecessors.push(current);
+            after_block.after_terminating_branches = true;
         }
 
         after_if
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
index 60d5660..15cd421 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
@@ -25,6 +25,9 @@ pub struct BasicBlock {
     pub terminator: Terminator,
     /// Text range covering this block (for diagnostics)
     pub range: Option<TextRange>,
+    /// Whether this block follows an `if` statement of which no branch can
+    /// continue to the next statement
+    pub after_terminating_branches: bool,
 }
 
 impl BasicBlock {
@@ -36,6 +39,7 @@ impl BasicBlock {
             predecessors: Vec::new(),
             terminator: Terminator::None,
             range: None,
+            after_terminating_branches: false,
         }
     }
 }
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
index 97bd3c1..c36a260 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
@@ -137,7 +137,7 @@ pub fn find_unreachable_code(cfg: &ControlFlowGraph) -> Vec<UnreachableCodeInfo>
 ///
 /// Priority order:
 /// 1. Check if a predecessor has a terminator (return/break/next)
-/// 2. Check if predecessor is a branch where all successors terminate (if/else with returns in all branches)
+/// 2. Check if the block follows an if/else where all branches terminate
 /// 3. Check if it's a dead branch (has predecessor pointer but no actual edge)
 /// 4. Default to NoPathFromEntry
 fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> UnreachableReason {
@@ -158,17 +158,9 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
             }
         }
 
-        // Priority 2: Check if predecessor is a branch where all successors terminate
-        // This handles the case where an if/else has returns in all branches
-        for &pred_id in &block.predecessors {
-            if let Some(pred_block) = cfg.block(pred_id)
-                && matches!(pred_block.terminator, Terminator::Branch)
-            {
-                // Check all successors of the branch to find what terminator they end with
-                if let Some(reason) = find_branch_terminator_reason(cfg, pred_id) {
-                    return reason;
-                }
-            }
+        // Priority 2: Check if the block follows an if/else that terminates in all branches
+        if block.after_terminating_branches {
+            return UnreachableReason::AfterBranchTerminating;
         }
 
         // Priority 3: Check if it's a dead branch from a constant condition
@@ -192,109 +184,6 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
     UnreachableReason::NoPathFromEntry
 }
 
-/// Find the terminator reason for a branch by traversing its successors
-///
-/// This handles if/else statements where all branches terminate (return/break/next/stop).
-/// We traverse the branch's successors to find what terminator they end with.
-fn find_branch_terminator_reason(
-    cfg: &ControlFlowGraph,
-    branch_id: BlockId,
-) -> Option<UnreachableReason> {
-    let branch_block = cfg.block(branch_id)?;
-
-    // We need ALL branches to terminate for code after the if/else to be unreachable
-    if branch_block.successors.is_empty() {
-        return None;
-    }
-
-    // Use a shared cache for all branches to avoid recomputing paths
-    let mut cache = rustc_hash::FxHashMap::default();
-
-    // Collect terminators from all branches
-    let mut all_terminate = true;
-    let mut found_return = false;
-    let mut found_stop = false;
-
-    for &succ_id in &branch_block.successors {
-        if let Some(reason) = find_terminator_in_path(cfg, succ_id, &mut cache) {
-            match reason {
-                UnreachableReason::AfterReturn => found_return = true,
-                UnreachableReason::AfterStop => found_stop = true,
-                // Break/Next inside an if/else would exit to a loop, not make code after if unreachable
-                _ => {}
-            }
-        } else {
-            // This branch doesn't terminate - code after the if/else is reachable
-            all_terminate = false;
-        }
-    }
-
-    // Only return AfterBranchTerminating if ALL branches terminate
-    if all_terminate && (found_return || found_stop) {
-        Some(UnreachableReason::AfterBranchTerminating)
-    } else {
-        None
-    }
-}
-
-/// Recursively find what terminator a path ends with
-///
-/// Uses a cache to store computed results, avoiding both infinite loops and redundant computation.
-/// When multiple branches converge to the same terminator, we return the cached result.
-fn find_terminator_in_path(
-    cfg: &ControlFlowGraph,
-    block_id: BlockId,
-    cache: &mut rustc_hash::FxHashMap<BlockId, Option<UnreachableReason>>,
-) -> Option<UnreachableReason> {
-    use super::graph::Terminator;
-
-    // Check cache first
-    if let Some(&cached) = cache.get(&block_id) {
-        return cached;
-    }
-
-    // Mark as in-progress (None) to detect cycles
-    cache.insert(block_id, None);
-
-    let block = cfg.block(block_id)?;
-
-    let result = match &block.terminator {
-        Terminator::Return => Some(UnreachableReason::AfterReturn),
-        Terminator::Stop => Some(UnreachableReason::AfterStop),
-        Terminator::Break | Terminator::Next => {
-            // These exit to loop structures, not relevant for if/else termination
-            None
-        }
-        Terminator::Goto => {
-            // Follow the goto to its successor
-            if let Some(&next) = block.successors.first() {
-                find_terminator_in_path(cfg, next, cache)
-            } else {
-                None
-            }
-        }
-        Terminator::Branch => {
-            // Nested if - check if all branches terminate
-            let mut result = None;
-            for &succ_id in &block.successors {
-                if let Some(reason) = find_terminator_in_path(cfg, succ_id, cache) {
-                    result = Some(reason);
-                } else {
-                    // One branch doesn't terminate, so the nested if doesn't fully terminate
-                    cache.insert(block_id, None);
-                    return None;
-                }
-            }
-            result
-        }
-        Terminator::Loop | Terminator::None => None,
-    };
-
-    // Cache the result
-    cache.insert(block_id, result);
-    result
-}
-
 /// Find all blocks reachable from the entry block using BFS (Breadth-First Search)
 ///
 /// BFS is a graph traversal algorithm that explores nodes level by level:
-- 
2.43.0


From c9069dcf3d7eda0729eeadf4493a43eaf9720dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 54/91] fix: 'return' without parentheses is taken for the end
 of the function

---
 .../src/lints/base/unreachable_code/cfg/builder.rs       | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index 01d2445..dbc28c3 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -239,10 +239,6 @@ impl<'a> CfgBuilder<'a> {
                 self.build_next(current, stmt.clone());
                 current
             }
-            RSyntaxKind::R_RETURN_EXPRESSION => {
-                self.build_return(current, stmt.clone());
-                current
-            }
             RSyntaxKind::R_IF_STATEMENT => {
                 if let Some(if_stmt) = RIfStatement::cast_ref(stmt) {
                     self.build_if_statement(&if_stmt, current, exit)
@@ -299,8 +295,9 @@ impl<'a> CfgBuilder<'a> {
                     current
                 }
             }
-            RSyntaxKind::R_IDENTIFIER => {
-                // Most identifiers are just regular statements
+            RSyntaxKind::R_IDENTIFIER | RSyntaxKind::R_RETURN_EXPRESSION => {
+                // Most identifiers are just regular statements, and so is
+                // `return` without parentheses: it doesn't leave the function
                 self.add_statement(current, stmt.clone());
                 current
             }
-- 
2.43.0


From 608a8e43549da483f92aa4c6d8b72879a6c5f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 55/91] fix: the same code in another layout is not recognised
 by coalesce, is_numeric and sort

---
 .../src/lints/base/coalesce/coalesce.rs       | 24 +++++++++----------
 .../src/lints/base/is_numeric/is_numeric.rs   |  7 +++---
 crates/jarl-core/src/lints/base/sort/sort.rs  |  6 +++--
 crates/jarl-core/src/utils.rs                 | 13 ++++++++++
 4 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index e1fdca0..499de61 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    get_function_name, node_contains_comments, parenthesize_replacement,
+    get_function_name, is_same_code, node_contains_comments, parenthesize_replacement,
     parenthesize_special_operand,
 };
 use air_r_syntax::*;
@@ -109,10 +109,10 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let alternative_str = extract_single_expression(&alternative);
-        let consequence_str = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
 
-        let inside_null_same_as_alternative = fn_body.to_trimmed_string() == alternative_str;
+        let inside_null_same_as_alternative = is_same_code(fn_body.syntax(), alternative.syntax());
 
         if !inside_null_same_as_alternative {
             return Ok(None);
@@ -124,7 +124,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
             fix_content = format!(
                 "{} %||% {}",
                 parenthesize_special_operand(&fn_body.to_trimmed_string()),
-                parenthesize_special_operand(&consequence_str)
+                parenthesize_special_operand(&consequence.to_trimmed_string())
             );
         }
     }
@@ -159,10 +159,10 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let consequence_str = extract_single_expression(&consequence);
-        let alternative_str = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
 
-        let inside_null_same_as_consequence = fn_body.to_trimmed_string() == consequence_str;
+        let inside_null_same_as_consequence = is_same_code(fn_body.syntax(), consequence.syntax());
 
         if !inside_null_same_as_consequence {
             return Ok(None);
@@ -174,7 +174,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
             fix_content = format!(
                 "{} %||% {}",
                 parenthesize_special_operand(&fn_body.to_trimmed_string()),
-                parenthesize_special_operand(&alternative_str)
+                parenthesize_special_operand(&alternative.to_trimmed_string())
             );
         }
     }
@@ -213,16 +213,16 @@ fn has_multiple_expressions(input: &AnyRExpression) -> bool {
 }
 
 // Extract single expression from braced expressions, or return the expression as-is
-fn extract_single_expression(input: &AnyRExpression) -> String {
+fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     if let Some(braced) = input.as_r_braced_expressions() {
         let expressions: Vec<_> = braced.expressions().into_iter().collect();
         if expressions.len() == 1 {
             // Single expression in braces, extract it
             if let Some(expr) = expressions.first() {
-                return expr.to_trimmed_string();
+                return expr.clone();
             }
         }
     }
 
-    input.to_trimmed_string()
+    input.clone()
 }
diff --git a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
index 98c7809..d0d0ed1 100644
--- a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
+++ b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::node_contains_comments;
+use crate::utils::{is_same_code, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -76,11 +76,10 @@ pub fn is_numeric(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
 
     // Early return: LHS and RHS args are not the same (e.g.
     // `is.numeric(x) || is.integer(y)`).
-    let left_arg = arg_left.into_syntax().text_trimmed();
-    let right_arg = arg_right.into_syntax().text_trimmed();
-    if left_arg != right_arg {
+    if !is_same_code(arg_left.syntax(), arg_right.syntax()) {
         return Ok(None);
     };
+    let left_arg = arg_left.into_syntax().text_trimmed();
 
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index e179b18..eb85395 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,5 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name, get_function_name, get_unnamed_args, is_same_code, node_contains_comments,
+};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -85,7 +87,7 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
     }
     // Safety: we know that `values` contains a single element.
     let values = values.first().unwrap();
-    if values.to_trimmed_text() != function_outer.to_trimmed_text() {
+    if !is_same_code(values.syntax(), function_outer.syntax()) {
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9d3dda2..5586185 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -358,6 +358,19 @@ pub fn get_nested_functions_content(
     Ok(None)
 }
 
+/// Whether two nodes are the same code, whatever their layout and comments.
+pub fn is_same_code(left: &RSyntaxNode, right: &RSyntaxNode) -> bool {
+    let mut left = left.descendants_tokens(Direction::Next);
+    let mut right = right.descendants_tokens(Direction::Next);
+    loop {
+        match (left.next(), right.next()) {
+            (None, None) => return true,
+            (Some(l), Some(r)) if l.text_trimmed() == r.text_trimmed() => {}
+            _ => return false,
+        }
+    }
+}
+
 /// Checks if a syntax node contains comments somewhere between subnodes.
 /// This is used to not provide a fix when comments are present to avoid
 /// destroying them.
-- 
2.43.0


From d31a3d7166dd8f8bcfd6f647188427a2e0bf7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 56/91] fix: code before '$', '@', '[' and '(' is not linted

---
 crates/jarl-core/src/analyze/expression.rs | 25 +++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..d6b1176 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -41,8 +41,11 @@ pub(crate) fn check_expression(
         AnyRExpression::RCall(children) => {
             analyze::call::call(children, checker)?;
 
-            if let Some(ns_expr) = children.function()?.as_r_namespace_expression() {
+            let function = children.function()?;
+            if let Some(ns_expr) = function.as_r_namespace_expression() {
                 analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
+            } else {
+                check_target(&function, checker)?;
             }
 
             for arg in children.arguments()?.items() {
@@ -98,8 +101,12 @@ pub(crate) fn check_expression(
             let body = children.body();
             check_expression(&body?, checker)?;
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_target(&children.left()?, checker)?;
+        }
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
+            check_target(&children.function()?, checker)?;
 
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
@@ -108,6 +115,7 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_target(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -131,3 +139,18 @@ pub(crate) fn check_expression(
 
     Ok(())
 }
+
+/// Check what is called, subsetted, or extracted from, e.g. `f(x)` in
+/// `f(x)$y` or `f(x)[1]`. Plain names and values are not expressions of their
+/// own there (`T$x` is not `TRUE$x`).
+fn check_target(
+    target: &air_r_syntax::AnyRExpression,
+    checker: &mut Checker,
+) -> anyhow::Result<()> {
+    match target {
+        AnyRExpression::AnyRValue(_)
+        | AnyRExpression::RIdentifier(_)
+        | AnyRExpression::RNamespaceExpression(_) => Ok(()),
+        _ => check_expression(target, checker),
+    }
+}
-- 
2.43.0


From 088000047b639ee4d79fd4445a882614fad59acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 57/91] fix: fixes that drop parentheses change code over
 several lines

---
 crates/jarl-core/src/utils.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 5586185..fb3ed28 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -452,7 +452,8 @@ fn parenthesize(content: &str, power: u8) -> String {
     let parsed = air_r_parser::parse(content, RParserOptions::default());
     let expressions: Vec<AnyRExpression> = parsed.tree().expressions().iter().collect();
     let [expression] = expressions.as_slice() else {
-        return content.to_string();
+        // Several lines that are one expression only in parentheses.
+        return format!("({content})");
     };
 
     // What is at the right end of the expression matters too: if it's the body
@@ -476,6 +477,12 @@ fn parenthesize(content: &str, power: u8) -> String {
 /// For example, `any(duplicated(x))` can be replaced by `anyDuplicated(x) > 0`
 /// in `y <- any(duplicated(x))` but not in `-any(duplicated(x))`.
 pub fn parenthesize_replacement(node: &RSyntaxNode, content: &str) -> String {
+    // A line break that was in parentheses, as in `!(x < y\n + 1)`, could
+    // otherwise end the expression.
+    if content.contains('\n') && !ignores_line_breaks(node) && !is_one_expression(content) {
+        return format!("({content})");
+    }
+
     let Some(parent) = node.parent() else {
         return content.to_string();
     };
@@ -492,6 +499,25 @@ pub fn parenthesize_replacement(node: &RSyntaxNode, content: &str) -> String {
     }
 }
 
+/// Whether `node` is in parentheses or brackets, where line breaks don't end
+/// an expression.
+fn ignores_line_breaks(node: &RSyntaxNode) -> bool {
+    node.ancestors()
+        .skip(1)
+        .find_map(|ancestor| match ancestor.kind() {
+            RSyntaxKind::R_PARENTHESIZED_EXPRESSION | RSyntaxKind::R_ARGUMENT => Some(true),
+            RSyntaxKind::R_BRACED_EXPRESSIONS => Some(false),
+            _ => None,
+        })
+        .unwrap_or(false)
+}
+
+/// Whether `content` is a single expression where line breaks count.
+fn is_one_expression(content: &str) -> bool {
+    let parsed = air_r_parser::parse(content, RParserOptions::default());
+    !parsed.has_error() && parsed.tree().expressions().iter().count() == 1
+}
+
 /// Returns the code `content` in the form in which it can be an operand of an
 /// operator of the form `%op%`.
 pub fn parenthesize_special_operand(content: &str) -> String {
-- 
2.43.0


From 45047610a77d18f52f8b35aa92f83010edfb1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 58/91] fix: string_boundary misses the same code in another
 layout

---
 .../src/lints/base/string_boundary/string_boundary.rs         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..34e4517 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, is_same_code, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -215,5 +215,5 @@ fn is_nchar_of_same_expr(end_expr: &AnyRExpression, x_expr: &AnyRExpression) ->
 
 /// Check if two expressions are syntactically identical
 fn expressions_match(expr1: &AnyRExpression, expr2: &AnyRExpression) -> bool {
-    expr1.syntax().text_trimmed() == expr2.syntax().text_trimmed()
+    is_same_code(expr1.syntax(), expr2.syntax())
 }
-- 
2.43.0


From 9533ec6a03d21b16269aec45159acff18501e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 59/91] fix: the fix of repeat tears apart a loop body over
 several lines

---
 crates/jarl-core/src/lints/base/repeat/repeat.rs | 10 +++++++---
 crates/jarl-core/src/utils.rs                    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/repeat/repeat.rs b/crates/jarl-core/src/lints/base/repeat/repeat.rs
index 75f4998..b5db76a 100644
--- a/crates/jarl-core/src/lints/base/repeat/repeat.rs
+++ b/crates/jarl-core/src/lints/base/repeat/repeat.rs
@@ -1,4 +1,5 @@
-use crate::{diagnostic::*, utils::node_contains_comments};
+use crate::diagnostic::*;
+use crate::utils::{is_one_expression, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -46,11 +47,14 @@ pub fn repeat(ast: &RWhileStatement) -> anyhow::Result<Option<Diagnostic>> {
 
     if condition.as_r_true_expression().is_some() {
         let body = ast.body()?;
-        let body_text = body.to_trimmed_text();
+        let body_text = body.to_trimmed_string();
 
         let is_braced = body.as_r_braced_expressions().is_some();
         let fix_content = if is_braced {
-            format!("{body_text}")
+            body_text
+        } else if !is_one_expression(&body_text) {
+            // The loop is in parentheses, where line breaks mean nothing.
+            format!("{{ ({body_text}) }}")
         } else {
             format!("{{ {body_text} }}")
         };
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index fb3ed28..5d4b53b 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -513,7 +513,7 @@ fn ignores_line_breaks(node: &RSyntaxNode) -> bool {
 }
 
 /// Whether `content` is a single expression where line breaks count.
-fn is_one_expression(content: &str) -> bool {
+pub fn is_one_expression(content: &str) -> bool {
     let parsed = air_r_parser::parse(content, RParserOptions::default());
     !parsed.has_error() && parsed.tree().expressions().iter().count() == 1
 }
-- 
2.43.0


From 0852b0a0317b8f4e4107d2eaf7adc8afe98780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 60/91] fix: a replacement is glued to the keyword next to it

---
 crates/jarl-core/src/check.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 00df1eb..ba8837a 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -234,6 +234,7 @@ pub fn get_checks(
             if x.fix.to_skip {
                 x.fix = Fix::empty();
             }
+            separate_from_neighbours(&mut x.fix, contents);
             x
         })
         .collect();
@@ -244,6 +245,29 @@ pub fn get_checks(
     Ok(diagnostics)
 }
 
+/// Keep the replacement of a fix apart from the words around it: the code that
+/// it replaces may touch a keyword, e.g. `if (x) any(duplicated(y))else 1`, which
+/// would otherwise become `if (x) anyDuplicated(y) > 0else 1`.
+fn separate_from_neighbours(fix: &mut Fix, contents: &str) {
+    let in_word = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
+
+    let before = contents
+        .get(..fix.start)
+        .and_then(|x| x.chars().next_back());
+    let after = contents.get(fix.end..).and_then(|x| x.chars().next());
+    let (Some(first), Some(last)) = (fix.content.chars().next(), fix.content.chars().next_back())
+    else {
+        return;
+    };
+
+    if after.is_some_and(in_word) && in_word(last) {
+        fix.content.push(' ');
+    }
+    if before.is_some_and(in_word) && in_word(first) {
+        fix.content.insert(0, ' ');
+    }
+}
+
 /// Lint an Rmd/Qmd file by extracting R code chunks and checking each one.
 ///
 /// Key differences from regular R file linting:
-- 
2.43.0


From 336c2044739485718611ef79524f24a02ad102da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 61/91] fix: keep other arguments of nested calls (any_is_na,
 which_grepl, ...)

---
 .../src/lints/base/which_grepl/which_grepl.rs | 23 ++++-
 crates/jarl-core/src/utils.rs                 | 93 +++++++++++++++----
 2 files changed, 96 insertions(+), 20 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs b/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
index 0e1fc15..8596c55 100644
--- a/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
+++ b/crates/jarl-core/src/lints/base/which_grepl/which_grepl.rs
@@ -1,6 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils::{get_nested_functions_content, match_arguments, node_contains_comments};
+use air_r_parser::RParserOptions;
 use air_r_syntax::*;
+use biome_rowan::AstNode;
 
 pub struct WhichGrepl;
 
@@ -55,7 +57,24 @@ pub fn which_grepl(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("grep({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(&outer_syntax),
+            to_skip: node_contains_comments(&outer_syntax) || !has_same_arguments(&inner_content),
         },
     )))
 }
+
+/// The parameters of `grepl()` and `grep()` are the same up to `perl`, then
+/// `grep()` has `value`.
+fn has_same_arguments(args: &str) -> bool {
+    let parsed = air_r_parser::parse(&format!("grepl({args})"), RParserOptions::default());
+    let call = parsed.syntax().descendants().find_map(RCall::cast);
+    let Some(arguments) = call.and_then(|call| call.arguments().ok()) else {
+        return false;
+    };
+    let params = ["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"];
+    match_arguments(&arguments.items(), &params).is_some_and(|matched| {
+        matched[4..]
+            .iter()
+            .flatten()
+            .all(|arg| arg.name_clause().is_some())
+    })
+}
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 5d4b53b..9b17300 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -145,6 +145,41 @@ pub fn get_arg_by_name_then_position(
     }
 }
 
+/// Matches the arguments of a call with `params`, the first parameters of the
+/// function, as R does (except for partial matching of names).
+///
+/// Returns the argument for each of `params`, or `None` if there's an argument
+/// that isn't for any of those or if this can't be told from the code, for
+/// instance because of `...`.
+pub fn match_arguments(args: &RArgumentList, params: &[&str]) -> Option<Vec<Option<RArgument>>> {
+    let mut matched: Vec<Option<RArgument>> = vec![None; params.len()];
+    let mut unnamed = Vec::new();
+
+    for arg in args.iter() {
+        let arg = arg.ok()?;
+        if arg.value()?.to_trimmed_text() == "..." {
+            return None;
+        }
+        match arg.name_clause() {
+            Some(name_clause) => {
+                let name = name_clause.name().ok()?.to_trimmed_string();
+                let param = params.iter().position(|param| *param == name)?;
+                if matched[param].replace(arg).is_some() {
+                    return None;
+                }
+            }
+            None => unnamed.push(arg),
+        }
+    }
+
+    let mut free = matched.iter_mut().filter(|param| param.is_none());
+    for arg in unnamed {
+        *free.next()? = Some(arg);
+    }
+
+    Some(matched)
+}
+
 /// Checks whether an argument named `name` or in position `pos` exist in the
 /// argument list passed as input.
 pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) -> bool {
@@ -284,15 +319,18 @@ pub fn get_nested_functions_content(
         return Ok(None);
     }
 
-    // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
-        .items()
-        .into_iter()
-        .find(|x| x.clone().unwrap().name_clause().is_none());
+    // Other arguments would get lost, but `na.rm` makes no difference in
+    // `any(is.na(x), na.rm = TRUE)`.
+    let items = arguments?.items();
+    let n_na_rm = usize::from(get_arg_by_name(&items, "na.rm").is_some());
+    let mut unnamed_args = get_unnamed_args(&items);
+    if unnamed_args.len() > 1 || get_named_args(&items).len() > n_na_rm {
+        return Ok(None);
+    }
 
-    if let Some(arg) = unnamed_arg {
-        let value = arg?.value();
-        if let Some(inner) = value
+    // Try nested case: outer_fn(inner_fn(content))
+    if let Some(arg) = unnamed_args.pop() {
+        if let Some(inner) = arg.value()
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
@@ -304,6 +342,7 @@ pub fn get_nested_functions_content(
                 .to_string();
             return Ok(Some((inner_content, call.syntax().clone())));
         }
+        return Ok(None);
     }
 
     // Try piped cases. The call must be on the right side of a pipe binary expression.
@@ -342,15 +381,16 @@ pub fn get_nested_functions_content(
             && let Some(inner_call) = inner_right?.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
-            let has_unnamed_args = inner_call
-                .as_fields()
-                .arguments?
-                .items()
-                .into_iter()
-                .any(|x| x.unwrap().name_clause().is_none());
-            if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
-                return Ok(Some((content, outer_syntax)));
+            let inner_args = inner_call.as_fields().arguments?.items();
+            // With `_`, the input doesn't come first.
+            let has_placeholder = get_named_args(&inner_args)
+                .iter()
+                .filter_map(|x| x.value())
+                .any(|x| x.to_trimmed_text() == "_");
+            if get_unnamed_args(&inner_args).is_empty() && !has_placeholder {
+                let mut content = vec![content_expr?.to_trimmed_string()];
+                content.extend(inner_args.iter().map(|x| x.unwrap().to_trimmed_string()));
+                return Ok(Some((content.join(", "), outer_syntax)));
             }
         }
     }
@@ -394,13 +434,24 @@ pub fn is_same_code(left: &RSyntaxNode, right: &RSyntaxNode) -> bool {
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
+    node_contains_comments_outside(node, &[])
+}
+
+/// Same as `node_contains_comments()`, but comments in those `subnodes` that
+/// the fix keeps as they are don't matter.
+pub fn node_contains_comments_outside(node: &RSyntaxNode, subnodes: &[&RSyntaxNode]) -> bool {
     let range = node.text_trimmed_range();
     node.descendants_tokens(Direction::Next).any(|token| {
         token
             .leading_trivia()
             .pieces()
             .chain(token.trailing_trivia().pieces())
-            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+            .filter(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+            .any(|piece| {
+                !subnodes
+                    .iter()
+                    .any(|x| x.text_trimmed_range().contains_range(piece.text_range()))
+            })
     })
 }
 
@@ -446,6 +497,12 @@ fn binding_power(node: &RSyntaxNode) -> Option<u8> {
     }
 }
 
+/// Whether `node` is an operation, a function definition, or the like, as
+/// opposed to a name or a call, for example.
+pub fn is_operation(node: &RSyntaxNode) -> bool {
+    binding_power(node).is_some()
+}
+
 /// Returns the code `content`, in parentheses if it couldn't be an operand of
 /// an operator that binds as tightly as `power` without them.
 fn parenthesize(content: &str, power: u8) -> String {
-- 
2.43.0


From 54712a0a1ddd0a1b183220f1176c28d335d737f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 62/91] fix: no fix for calls on the right of a pipe that would
 lose the piped argument

---
 crates/jarl-core/src/analyze/call.rs | 16 ++++++++++++++++
 crates/jarl-core/src/utils_ast.rs    | 22 ++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/crates/jarl-core/src/analyze/call.rs b/crates/jarl-core/src/analyze/call.rs
index e7c68f5..e35fd11 100644
--- a/crates/jarl-core/src/analyze/call.rs
+++ b/crates/jarl-core/src/analyze/call.rs
@@ -1,6 +1,9 @@
 use crate::checker::Checker;
+use crate::diagnostic::Fix;
 use crate::rule_set::Rule;
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RCall;
+use biome_rowan::AstNode;
 
 use crate::lints::base::all_equal::all_equal::all_equal;
 use crate::lints::base::any_duplicated::any_duplicated::any_duplicated;
@@ -36,6 +39,8 @@ use crate::lints::testthat::expect_true_false::expect_true_false::expect_true_fa
 use crate::lints::testthat::expect_type::expect_type::expect_type;
 
 pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
+    let n_diagnostics = checker.diagnostics.len();
+
     if checker.is_rule_enabled(Rule::AllEqual) {
         checker.report_diagnostic(all_equal(r_expr)?);
     }
@@ -129,5 +134,16 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
     if checker.is_rule_enabled(Rule::WhichGrepl) {
         checker.report_diagnostic(which_grepl(r_expr)?);
     }
+
+    // The fixes use the arguments as they are written, but here one comes from
+    // the pipe.
+    if r_expr.has_piped_argument() {
+        let range = r_expr.syntax().text_trimmed_range();
+        for diagnostic in &mut checker.diagnostics[n_diagnostics..] {
+            if diagnostic.range == range {
+                diagnostic.fix = Fix::empty();
+            }
+        }
+    }
     Ok(())
 }
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..2bb601b 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -50,6 +50,15 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
             .unwrap_or(false)
     }
 
+    /// Returns true if this node is the sequence of a for statement.
+    /// The sequence is always at index 4: FOR_KW - L_PAREN - [variable] - IN_KW - [sequence] - R_PAREN - [body]
+    fn parent_is_for_sequence(&self) -> bool {
+        self.syntax()
+            .parent()
+            .map(|p| p.kind() == RSyntaxKind::R_FOR_STATEMENT && self.syntax().index() == 4)
+            .unwrap_or(false)
+    }
+
     /// Returns true if this node is the body of a for statement.
     /// The body is always at index 6: FOR_KW - L_PAREN - [variable] - IN_KW - [sequence] - R_PAREN - [body]
     fn parent_is_for_body(&self) -> bool {
@@ -67,6 +76,19 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
             .unwrap_or(false)
     }
 
+    /// Returns true if this node is on the right of a pipe, as in `x |> f()` or
+    /// `x %>% f()`.
+    fn has_piped_argument(&self) -> bool {
+        self.syntax()
+            .prev_sibling_or_token()
+            .and_then(|operator| operator.into_token())
+            .is_some_and(|operator| match operator.kind() {
+                RSyntaxKind::PIPE => true,
+                RSyntaxKind::SPECIAL => operator.text_trimmed().ends_with(">%"),
+                _ => false,
+            })
+    }
+
     /// Returns true if parent is a unary expression with a BANG operator.
     /// This returns false for rlang's `!!` and `!!!`.
     fn parent_is_bang_unary(&self) -> bool {
-- 
2.43.0


From 9fd258ae422dead060306297c2329c9b3f5ce694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 63/91] fix: assignment: keep comments, parenthesise `=` where
 it isn't an assignment, and leave unsuitable targets

---
 .../src/lints/base/assignment/assignment.rs   | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index 2e92ecf..b341616 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
-use crate::utils::parenthesize_replacement;
+use crate::utils::{is_operation, node_contains_comments_outside, parenthesize_replacement};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -101,15 +102,40 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // Not something that can be assigned to, or something that would be torn
+    // apart. In `a = b = 1`, the inner assignment has to be fixed first.
+    let (target, value) = match operator.kind() {
+        RSyntaxKind::ASSIGN_RIGHT => (&rhs, &lhs),
+        _ => (&lhs, &rhs),
+    };
+    let is_equal_assignment = RBinaryExpression::cast_ref(value)
+        .and_then(|value| value.operator().ok())
+        .is_some_and(|operator| operator.kind() == RSyntaxKind::EQUAL);
+    let is_unclear =
+        is_operation(target) || (assignment == RSyntaxKind::ASSIGN && is_equal_assignment);
+
+    // `f(a = b)` isn't an assignment, and neither is `if (a = b)`.
+    let in_parentheses = assignment == RSyntaxKind::EQUAL
+        && (ast.parent::<RArgument>().is_some()
+            || ast.parent::<RParameterDefault>().is_some()
+            || ast.parent_is_if_condition()
+            || ast.parent_is_while_condition()
+            || ast.parent_is_for_sequence());
+    let replacement = if in_parentheses {
+        format!("({replacement})")
+    } else {
+        parenthesize_replacement(ast.syntax(), &replacement)
+    };
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
         range_to_report,
         Fix {
-            content: parenthesize_replacement(ast.syntax(), &replacement),
+            content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip: is_unclear || node_contains_comments_outside(ast.syntax(), &[&lhs, &rhs]),
         },
     );
 
-- 
2.43.0


From d13b254ab4757d3751c1552d1d3e74b9f88c332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 64/91] fix: all_equal: no fix when there's a comment after `!`

---
 crates/jarl-core/src/lints/base/all_equal/all_equal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 396f83d..9d9fae8 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -93,16 +93,17 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let msg = "If `all.equal()` is false, it will return a string and not `FALSE`.".to_string();
-    let mut range = ast.syntax().text_trimmed_range();
+    let mut replaced = ast.syntax().clone();
 
     let fix_content = if ast.parent_is_bang_unary() {
-        if let Some(prev) = ast.syntax().prev_sibling_or_token() {
-            range = TextRange::new(prev.text_trimmed_range().start(), range.end())
+        if let Some(parent) = ast.syntax().parent() {
+            replaced = parent;
         }
         format!("!isTRUE({})", ast.to_trimmed_text())
     } else {
         format!("isTRUE({})", ast.to_trimmed_text())
     };
+    let range = replaced.text_trimmed_range();
 
     let diagnostic = Diagnostic::new(
         ViolationData::new(
@@ -115,7 +116,7 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: fix_content,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(&replaced),
         },
     );
 
-- 
2.43.0


From 2be5163ad58235fe0fff4e366db6225dd8ddf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 65/91] fix: class_equals: no fix for identical() with other
 arguments

---
 .../jarl-core/src/lints/base/class_equals/class_equals.rs  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
index 902c20c..dcc7570 100644
--- a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
+++ b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
@@ -1,5 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_position, get_function_name, match_arguments, node_contains_comments,
+};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -162,7 +164,8 @@ pub fn class_identical(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("inherits({}, {})", fun_content, class_name),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(ast.syntax())
+                || match_arguments(&args, &["x", "y"]).is_none(),
         },
     );
     Ok(Some(diagnostic))
-- 
2.43.0


From 1cf5abdbe8c1c8060d66852855358f85b3884ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 66/91] fix: fixed_regex: match arguments as R does, keep their
 order, and leave empty patterns and replacements with backslashes

---
 .../src/lints/base/fixed_regex/fixed_regex.rs | 124 +++++++++++-------
 1 file changed, 74 insertions(+), 50 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..9d97087 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -1,8 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::drop_arg_by_name_or_position;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, match_arguments, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct FixedRegex;
 
@@ -53,39 +52,55 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let fn_name = get_function_name(function);
     let args = ast.arguments()?.items();
 
-    // Determine the position of the 'fixed' argument based on the function
-    let fixed_position = match fn_name.as_str() {
-        "grep" | "gsub" | "sub" => 6,
-        "regexpr" | "gregexpr" | "regexec" | "grepl" => 5,
+    let params: &[&str] = match fn_name.as_str() {
+        "grepl" => &["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"],
+        "grep" => &[
+            "pattern",
+            "x",
+            "ignore.case",
+            "perl",
+            "value",
+            "fixed",
+            "useBytes",
+            "invert",
+        ],
+        "gsub" | "sub" => &[
+            "pattern",
+            "replacement",
+            "x",
+            "ignore.case",
+            "perl",
+            "fixed",
+            "useBytes",
+        ],
+        "regexpr" | "gregexpr" | "regexec" => &[
+            "pattern",
+            "text",
+            "ignore.case",
+            "perl",
+            "fixed",
+            "useBytes",
+        ],
         _ => return Ok(None),
     };
-
-    // Check if fixed is already set to TRUE
-    if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
-    {
-        // fixed = TRUE is already set, no need to lint
-        return Ok(None);
-    }
-
-    // Check if ignore.case is set to TRUE (implies regex interpretation)
-    let ignore_case_position = match fn_name.as_str() {
-        "gsub" | "sub" => 4,
-        "regexpr" | "gregexpr" | "regexec" | "grep" | "grepl" => 3,
-        _ => return Ok(None),
+    let matched = unwrap_or_return_none!(match_arguments(&args, params));
+    let get = |name: &str| {
+        let position = params.iter().position(|param| *param == name)?;
+        matched[position].clone()
     };
-    if let Some(ignore_case_arg) =
-        get_arg_by_name_then_position(&args, "ignore.case", ignore_case_position)
-        && let Some(value) = ignore_case_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
-    {
-        // ignore.case = TRUE implies regex interpretation is needed
-        return Ok(None);
+
+    // Nothing to report if `fixed = TRUE` is already set or if `ignore.case =
+    // TRUE` is set (implies regex interpretation), or if they may be.
+    for name in ["fixed", "ignore.case"] {
+        if let Some(value) = get(name).and_then(|arg| arg.value())
+            && value.as_r_false_expression().is_none()
+        {
+            return Ok(None);
+        }
     }
 
     // Get the pattern argument (first argument for all functions)
-    let pattern_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "pattern", 1));
+    let pattern_arg = unwrap_or_return_none!(get("pattern"));
     let pattern_value = unwrap_or_return_none!(pattern_arg.value());
 
     // Check if the pattern is a string literal
@@ -96,33 +111,42 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Remove outer quotes to get the actual pattern
     let pattern_content = pattern_string.trim_matches(|c| c == '"' || c == '\'');
 
-    // Check if the pattern is fixed (no special regex characters)
-    if !is_fixed_pattern(pattern_content) {
+    // Check if the pattern is fixed (no special regex characters). The empty
+    // pattern matches everywhere as a regex only.
+    if !is_fixed_pattern(pattern_content) || pattern_string.len() == 2 {
+        return Ok(None);
+    }
+
+    // With `fixed = TRUE`, "\\1" or "\\\\" in the replacement mean something else.
+    if let Some(replacement) = get("replacement").and_then(|arg| arg.value())
+        && replacement.to_trimmed_text().contains('\\')
+    {
         return Ok(None);
     }
 
     // Pattern is fixed but fixed = TRUE is not set
     // Build the fix by adding fixed = TRUE to the arguments or changing the value
     // of fixed = FALSE.
-    let args_text = if let Some(fixed_arg) =
-        get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "FALSE"
-    {
-        unwrap_or_return_none!(drop_arg_by_name_or_position(&args, "fixed", fixed_position))
-            .into_iter()
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    } else {
-        args.into_iter()
-            .filter_map(|arg| arg.ok())
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    };
+    let fixed_arg = get("fixed");
+    let mut has_fixed = false;
+    let mut new_args = Vec::new();
+    for arg in args.iter().filter_map(|arg| arg.ok()) {
+        if fixed_arg
+            .as_ref()
+            .is_none_or(|fixed| fixed.syntax() != arg.syntax())
+        {
+            new_args.push(arg.syntax().text_trimmed().to_string());
+        } else if arg.name_clause().is_none() {
+            // Keep the position of the other arguments.
+            new_args.push("TRUE".to_string());
+            has_fixed = true;
+        }
+    }
+    if !has_fixed {
+        new_args.push("fixed = TRUE".to_string());
+    }
 
-    let fixed_content = format!("{}({}, fixed = TRUE)", fn_name, args_text);
+    let fixed_content = format!("{}({})", fn_name, new_args.join(", "));
 
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
-- 
2.43.0


From 39d8039b09ac4a3086909ff8ddad6fd9d89bcf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 67/91] fix: grepv: only for value = TRUE, and keep the other
 arguments where they are

---
 .../jarl-core/src/lints/base/grepv/grepv.rs   | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..9dc49e1 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,9 +1,10 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
+    get_arg_by_name_then_position, get_function_name, get_unnamed_args, match_arguments,
+    node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 pub struct Grepv;
 
 /// ## What it does
@@ -58,22 +59,43 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
-
-    if !arg_value_is_present {
+    let params = [
+        "pattern",
+        "x",
+        "ignore.case",
+        "perl",
+        "value",
+        "fixed",
+        "useBytes",
+        "invert",
+    ];
+    let matched = match_arguments(&items, &params);
+    let value_arg = match &matched {
+        Some(matched) => matched[4].clone(),
+        None => get_arg_by_name_then_position(&items, "value", 5),
+    };
+    let value_arg = unwrap_or_return_none!(value_arg);
+    if unwrap_or_return_none!(value_arg.value())
+        .as_r_true_expression()
+        .is_none()
+    {
         return Ok(None);
     }
 
-    let other_args = drop_arg_by_name_or_position(&items, "value", 5);
+    let inner_content = items
+        .iter()
+        .filter_map(|x| x.ok())
+        .filter(|x| x.syntax() != value_arg.syntax())
+        .map(|x| x.syntax().text_trimmed().to_string())
+        .collect::<Vec<_>>()
+        .join(", ");
 
-    let inner_content = match other_args {
-        Some(x) => x
-            .iter()
-            .map(|x| x.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", "),
-        None => "".to_string(),
-    };
+    // Arguments after a positional `value` would be matched with other
+    // parameters.
+    let is_unclear = matched.is_none()
+        || (value_arg.name_clause().is_none()
+            && get_unnamed_args(&items).last().map(|x| x.syntax().clone())
+                != Some(value_arg.syntax().clone()));
 
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
@@ -83,7 +105,7 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("grepv({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(ast.syntax()) || is_unclear,
         },
     );
 
-- 
2.43.0


From 64d904fb15419c33a078f7736c34fa854a49e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 68/91] fix: lengths: no fix that loses arguments

---
 crates/jarl-core/src/lints/base/lengths/lengths.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 64c6a60..c323a91 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,6 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    get_arg_by_name, get_arg_by_name_then_position, get_function_name, node_contains_comments,
+    get_arg_by_name, get_arg_by_name_then_position, get_function_name, match_arguments,
+    node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -66,6 +67,14 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         && let Some(arg_x) = arg_x
         && arg_fun.into_syntax().text_trimmed() == "length"
     {
+        // Other arguments would get lost.
+        let params: &[&str] = match fn_name.as_str() {
+            "sapply" => &["X", "FUN"],
+            "vapply" => &["X", "FUN", "FUN.VALUE"],
+            _ => &[".x", ".f"],
+        };
+        let has_other_args = match_arguments(&arguments, params).is_none();
+
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
@@ -74,7 +83,7 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: node_contains_comments(ast.syntax()) || has_other_args,
             },
         );
         return Ok(Some(diagnostic));
-- 
2.43.0


From e4eb3c9157f0a462249d9cc9ab89099d8b724028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 69/91] fix: outer_negation: only for `!`, and not for named
 arguments

---
 .../src/lints/base/outer_negation/outer_negation.rs        | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index 42ae63f..a507bba 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -55,7 +55,8 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let arg_value = unwrap_or_return_none!(first_arg.value());
     // Check if the argument is a unary expression (negation)
-    if arg_value.syntax().kind() != RSyntaxKind::R_UNARY_EXPRESSION {
+    let unary = unwrap_or_return_none!(arg_value.as_r_unary_expression());
+    if unary.operator()?.kind() != RSyntaxKind::BANG || first_arg.name_clause().is_some() {
         return Ok(None);
     }
 
@@ -68,10 +69,6 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let expr = unwrap_or_return_none!(negated_expr);
 
-    // It looks like the first (and only) child of R_UNARY_EXPRESSION is what
-    // comes after "!". So we don't need to check that this is indeed using the
-    // BANG operator because it's the only R_UNARY_EXPRESSION available.
-
     // Don't report consecutive unary expressions (e.g., `any(!!x)`)
     if expr.kind() == RSyntaxKind::R_UNARY_EXPRESSION {
         return Ok(None);
-- 
2.43.0


From 2889fa2057ffab7c6983b4f1c61af1170549ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 70/91] fix: sample_int: find the first argument as R does

---
 .../src/lints/base/sample_int/sample_int.rs   | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index 38a23df..56ea959 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -1,10 +1,10 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
+    get_arg_by_name, get_arg_by_name_then_position, get_function_name, match_arguments,
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct SampleInt;
 
@@ -57,7 +57,8 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let n = get_arg_by_name_then_position(&args, "n", 1);
+    let n = get_arg_by_name(&args, "x").or_else(|| get_arg_by_name_then_position(&args, "n", 1));
+    let n_syntax = n.as_ref().map(|n| n.syntax().clone());
 
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
@@ -80,19 +81,23 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     };
 
-    let other_args = drop_arg_by_name_or_position(&args, "n", 1);
-    let inner_content = match other_args {
-        Some(x) => {
-            let out = x
-                .iter()
-                .map(|x| x.syntax().text_trimmed().to_string())
-                .collect::<Vec<_>>()
-                .join(", ");
+    let other_args = args
+        .iter()
+        .filter_map(|x| x.ok())
+        .filter(|x| Some(x.syntax()) != n_syntax.as_ref())
+        .map(|x| x.syntax().text_trimmed().to_string());
+    let inner_content = std::iter::once(right_value)
+        .chain(other_args)
+        .collect::<Vec<_>>()
+        .join(", ");
 
-            [right_value, out].join(", ")
-        }
-        None => right_value,
+    let param = if get_arg_by_name(&args, "n").is_some() {
+        "n"
+    } else {
+        "x"
     };
+    let is_unclear = match_arguments(&args, &[param, "size", "replace", "prob"]).is_none();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         SampleInt,
@@ -101,7 +106,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("sample.int({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(ast.syntax()) || is_unclear,
         },
     );
 
-- 
2.43.0


From 8631626a0e655fa48eba326d589e6239c2c04937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 71/91] fix: seq, seq2: no fix for named arguments of length()

---
 crates/jarl-core/src/lints/base/seq/seq.rs   | 12 +++++++-----
 crates/jarl-core/src/lints/base/seq2/seq2.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/seq/seq.rs b/crates/jarl-core/src/lints/base/seq/seq.rs
index 8837ac6..05f8737 100644
--- a/crates/jarl-core/src/lints/base/seq/seq.rs
+++ b/crates/jarl-core/src/lints/base/seq/seq.rs
@@ -1,6 +1,6 @@
 use crate::{
     diagnostic::*,
-    utils::{get_function_name, node_contains_comments},
+    utils::{get_function_name, get_named_args, node_contains_comments},
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -64,9 +64,11 @@ pub fn seq(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let right_fun_content = right_call
-        .arguments()?
-        .items()
+    let right_fun_args = right_call.arguments()?.items();
+    // The parameter of `seq_along()` doesn't have the same name.
+    let has_other_name = right_fun_name == "length" && !get_named_args(&right_fun_args).is_empty();
+
+    let right_fun_content = right_fun_args
         .into_iter()
         .map(|x| x.unwrap().to_trimmed_string())
         .collect::<Vec<String>>()
@@ -109,7 +111,7 @@ pub fn seq(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>> {
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(ast.syntax()) || has_other_name,
         },
     );
 
diff --git a/crates/jarl-core/src/lints/base/seq2/seq2.rs b/crates/jarl-core/src/lints/base/seq2/seq2.rs
index 17e8b57..ca721a2 100644
--- a/crates/jarl-core/src/lints/base/seq2/seq2.rs
+++ b/crates/jarl-core/src/lints/base/seq2/seq2.rs
@@ -1,6 +1,6 @@
 use crate::{
     diagnostic::*,
-    utils::{get_function_name, node_contains_comments},
+    utils::{get_function_name, get_named_args, node_contains_comments},
 };
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -75,7 +75,11 @@ pub fn seq2(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             return Ok(None);
         }
 
-        let inner_fun_content = arguments?.items().into_syntax().to_string();
+        let inner_fun_args = arguments?.items();
+        // The parameter of `seq_along()` doesn't have the same name.
+        let has_other_name =
+            inner_fn_name == "length" && !get_named_args(&inner_fun_args).is_empty();
+        let inner_fun_content = inner_fun_args.into_syntax().to_string();
 
         let (suggestion, replacement) = match inner_fn_name.as_str() {
             "length" => ("seq_along(...)", format!("seq_along({inner_fun_content})")),
@@ -112,7 +116,7 @@ pub fn seq2(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: replacement,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: node_contains_comments(ast.syntax()) || has_other_name,
             },
         );
 
-- 
2.43.0


From 00fd3c7a8f8a5aac647e760eb9f02ef211711339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 72/91] fix: sort: no report when named arguments would get
 lost

---
 crates/jarl-core/src/lints/base/sort/sort.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index eb85395..72dad65 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -3,7 +3,7 @@ use crate::utils::{
     get_arg_by_name, get_function_name, get_unnamed_args, is_same_code, node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Sort;
 
@@ -108,6 +108,11 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
         additional_args.push(method.to_trimmed_text());
     }
 
+    // Other named arguments would get lost.
+    if args.iter().count() != 1 + additional_args.len() {
+        return Ok(None);
+    }
+
     let additional_args = additional_args.join(", ");
     let fix = if additional_args.is_empty() {
         format!("sort({})", function_outer.to_trimmed_text())
-- 
2.43.0


From 8a1e3ff12e516f5fe723414bc1fec3f3649ee05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 73/91] fix: sprintf: no fix that loses arguments

---
 crates/jarl-core/src/lints/base/sprintf/sprintf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 7ba7020..04b6f57 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -4,7 +4,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -106,7 +106,8 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: parse_result.output_string,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                // Other arguments would get lost.
+                to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 1,
             },
         );
         return Ok(Some(diagnostic));
-- 
2.43.0


From 32a3fa7e08f79a3c542b28ade58597238e703a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 74/91] fix: string_boundary: match arguments as R does and no
 fix when the lengths differ

---
 .../base/string_boundary/string_boundary.rs   | 95 ++++++++++++++-----
 1 file changed, 71 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 34e4517..c4a68c2 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, is_same_code, node_contains_comments};
+use crate::utils::{get_function_name, is_same_code, match_arguments, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -63,21 +63,22 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
 
     // Get arguments
     let arguments = call.arguments()?;
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    // Need at least 3 arguments (x, start, end)
-    if args.len() < 3 {
+    let params = if func_name == "substr" {
+        ["x", "start", "stop"]
+    } else {
+        ["text", "first", "last"]
+    };
+    let args = unwrap_or_return_none!(match_arguments(&arguments.items(), &params));
+
+    // Need the 3 arguments (x, start, end)
+    let [Some(x_arg), Some(start_arg), Some(end_arg)] = args.as_slice() else {
         return Ok(None);
-    }
+    };
 
     // Extract the expression values from arguments
-    let x_arg = unwrap_or_return_none!(args[0].value());
-    let start_arg = unwrap_or_return_none!(args[1].value());
-    let end_arg = unwrap_or_return_none!(args[2].value());
+    let x_arg = unwrap_or_return_none!(x_arg.value());
+    let start_arg = unwrap_or_return_none!(start_arg.value());
+    let end_arg = unwrap_or_return_none!(end_arg.value());
 
     // Get the string being compared
     let string_text = string_expr.syntax().text_trimmed();
@@ -87,6 +88,11 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
     if is_literal_one(&start_arg) {
         let range = ast.syntax().text_trimmed_range();
 
+        // `substr(x, 1, 3) == "ab"` and `substr(x, 1, nchar(x)) == "ab"` don't
+        // mean that `x` starts with "ab".
+        let is_other_length = is_nchar_of_same_expr(&end_arg, &x_arg)
+            || may_differ(literal_number(&end_arg), string_expr, 0.0);
+
         // Build the replacement: startsWith(x, "string") or !startsWith(x, "string")
         let replacement = if op_kind == RSyntaxKind::NOT_EQUAL {
             format!("!startsWith({}, {})", x_text, string_text)
@@ -107,7 +113,7 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
                 content: replacement,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: node_contains_comments(ast.syntax()) || is_other_length,
             },
         );
         return Ok(Some(diagnostic));
@@ -117,6 +123,10 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
     if is_nchar_of_same_expr(&end_arg, &x_arg) {
         let range = ast.syntax().text_trimmed_range();
 
+        // `substr(x, nchar(x) - 3, nchar(x)) == "ab"` doesn't mean that `x` ends
+        // with "ab".
+        let is_other_length = may_differ(offset_from_nchar(&start_arg, &x_arg), string_expr, 1.0);
+
         // Build the replacement: endsWith(x, "string") or !endsWith(x, "string")
         let replacement = if op_kind == RSyntaxKind::NOT_EQUAL {
             format!("!endsWith({}, {})", x_text, string_text)
@@ -137,7 +147,7 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
                 content: replacement,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: node_contains_comments(ast.syntax()) || is_other_length,
             },
         );
         return Ok(Some(diagnostic));
@@ -146,6 +156,49 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
     Ok(None)
 }
 
+/// Whether `string_expr` is a string for which it isn't known that it has
+/// `n + more` characters.
+fn may_differ(n: Option<f64>, string_expr: &AnyRExpression, more: f64) -> bool {
+    let Some(n) = n else {
+        return false;
+    };
+    let Some(string) = string_expr
+        .as_any_r_value()
+        .and_then(|value| value.as_r_string_value())
+    else {
+        return false;
+    };
+    let string = string.to_trimmed_string();
+    // An escape sequence or a raw string
+    if string.contains('\\') || string.starts_with(['r', 'R']) {
+        return true;
+    }
+    string.chars().count() as f64 != n + more + 2.0
+}
+
+/// The value of a numeric literal, NaN if this can't tell.
+fn literal_number(expr: &AnyRExpression) -> Option<f64> {
+    let value = expr.as_any_r_value()?;
+    if value.as_r_integer_value().is_none() && value.as_r_double_value().is_none() {
+        return None;
+    }
+    let text = value.to_trimmed_string();
+    Some(text.trim_end_matches('L').parse().unwrap_or(f64::NAN))
+}
+
+/// The `n` in `nchar(x) - n`
+fn offset_from_nchar(expr: &AnyRExpression, x_expr: &AnyRExpression) -> Option<f64> {
+    if is_nchar_of_same_expr(expr, x_expr) {
+        return Some(0.0);
+    }
+    let RBinaryExpressionFields { left, operator, right } =
+        expr.as_r_binary_expression()?.as_fields();
+    if operator.ok()?.kind() != RSyntaxKind::MINUS || !is_nchar_of_same_expr(&left.ok()?, x_expr) {
+        return None;
+    }
+    literal_number(&right.ok()?)
+}
+
 /// Check if an expression is the literal value 1 or 1L
 fn is_literal_one(expr: &AnyRExpression) -> bool {
     // Check if it's an AnyRValue (numeric literal)
@@ -193,18 +246,12 @@ fn is_nchar_of_same_expr(end_expr: &AnyRExpression, x_expr: &AnyRExpression) ->
         _ => return false,
     };
 
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    if args.len() != 1 {
+    let Some(args) = match_arguments(&arguments.items(), &["x"]) else {
         return false;
-    }
+    };
 
     // Get the expression from the first argument
-    let nchar_arg = match args[0].as_fields().value {
+    let nchar_arg = match args[0].as_ref().and_then(|arg| arg.value()) {
         Some(v) => v,
         None => return false,
     };
-- 
2.43.0


From a23a2103c9d42037b0d3a780b8457cc95b89b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 75/91] fix: system_file: keep the order of arguments and don't
 lose path components

---
 .../src/lints/base/system_file/system_file.rs | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..808cb91 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -79,7 +79,13 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let file_path_value = unwrap_or_return_none!(file_path.first().unwrap().value());
     let file_path_call = unwrap_or_return_none!(file_path_value.as_r_call());
 
-    let file_path_inner_content = file_path_call.arguments()?.items().iter().filter(|x| {
+    let file_path_args = file_path_call.arguments()?.items();
+
+    // Other components of the path would get lost, and named arguments of
+    // `file.path()` aren't those of `system.file()`.
+    let is_unclear = values.len() != 1 || !get_named_args(&file_path_args).is_empty();
+
+    let file_path_inner_content = file_path_args.iter().filter(|x| {
         if let Ok(x) = x {
             x.value().is_some()
         } else {
@@ -94,9 +100,13 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         .collect::<Vec<String>>()
         .join(", ");
 
-    let other_args = get_named_args(&args)
+    let content = args
         .iter()
-        .map(|x| x.to_trimmed_string())
+        .filter_map(|x| x.ok())
+        .map(|x| match x.name_clause() {
+            Some(_) => x.to_trimmed_string(),
+            None => file_path_inner_content.clone(),
+        })
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -105,10 +115,10 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({content})"),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(ast.syntax()) || is_unclear,
         },
     );
     Ok(Some(diagnostic))
-- 
2.43.0


From 4e64e6f0ec342c1ae861e630dc83e22a7f2cedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 76/91] fix: true_false_symbol: no fix for the target of an
 assignment

---
 .../base/true_false_symbol/true_false_symbol.rs  | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs b/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
index 5d4ff83..b189049 100644
--- a/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
+++ b/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
@@ -83,9 +83,23 @@ pub fn true_false_symbol(ast: &RIdentifier) -> anyhow::Result<Option<Diagnostic>
             },
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            // `TRUE <- 1` is an error
+            to_skip: is_assignment_target(ast),
         },
     );
 
     Ok(Some(diagnostic))
 }
+
+fn is_assignment_target(ast: &RIdentifier) -> bool {
+    let Some(parent) = ast.parent::<RBinaryExpression>() else {
+        return false;
+    };
+    let RBinaryExpressionFields { left, operator, right } = parent.as_fields();
+    let target = match operator.map(|operator| operator.kind()) {
+        Ok(RSyntaxKind::ASSIGN | RSyntaxKind::SUPER_ASSIGN | RSyntaxKind::EQUAL) => left,
+        Ok(RSyntaxKind::ASSIGN_RIGHT | RSyntaxKind::SUPER_ASSIGN_RIGHT) => right,
+        _ => return false,
+    };
+    target.is_ok_and(|target| target.syntax() == ast.syntax())
+}
-- 
2.43.0


From b211839e5809308d551ddf81710828d6f6457689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 77/91] fix: expect_not: keep the parentheses of `!(x = y)`

---
 .../src/lints/testthat/expect_not/expect_not.rs       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
index f4e646e..e9ffe78 100644
--- a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
@@ -83,7 +83,10 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     // Strip outer parentheses if present: !(x && y) -> x && y
     let inner_text = if let Some(paren_expr) = argument.as_r_parenthesized_expression() {
-        if let Ok(body) = paren_expr.body() {
+        // (unless this would turn `!(x = y)` into a named argument)
+        if let Ok(body) = paren_expr.body()
+            && !is_equal_assignment(&body)
+        {
             body.to_trimmed_text()
         } else {
             argument.to_trimmed_text()
@@ -123,3 +126,9 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     Ok(Some(diagnostic))
 }
+
+fn is_equal_assignment(expr: &AnyRExpression) -> bool {
+    expr.as_r_binary_expression()
+        .and_then(|binary| binary.operator().ok())
+        .is_some_and(|operator| operator.kind() == RSyntaxKind::EQUAL)
+}
-- 
2.43.0


From a4182da74e2661453ddfa93e07473d2088adf9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 78/91] fix: expect_match, expect_no_match: match arguments as
 R does

---
 .../src/lints/testthat/expect_match/expect_match.rs       | 8 ++++++--
 .../src/lints/testthat/expect_no_match/expect_no_match.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs b/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
index dd1a009..883067a 100644
--- a/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
-    get_nested_functions_content, get_unnamed_args, node_contains_comments,
+    get_nested_functions_content, get_unnamed_args, match_arguments, node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -121,7 +121,11 @@ pub fn expect_match(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         range != pattern_range && range != x_range
     });
 
-    if has_unnamed_optional_grepl_arg {
+    // An abbreviated name, such as `pat =`, could be that of `pattern` or `x`.
+    let params = ["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"];
+    let is_unclear = match_arguments(&grepl_args, &params).is_none();
+
+    if has_unnamed_optional_grepl_arg || is_unclear {
         return Ok(Some(Diagnostic::new(ExpectMatch, range, Fix::empty())));
     }
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs b/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
index 45927a7..24d94ec 100644
--- a/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
-    get_nested_functions_content, get_unnamed_args, node_contains_comments,
+    get_nested_functions_content, get_unnamed_args, match_arguments, node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -122,7 +122,11 @@ pub fn expect_no_match(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         range != pattern_range && range != x_range
     });
 
-    if has_unnamed_optional_grepl_arg {
+    // An abbreviated name, such as `pat =`, could be that of `pattern` or `x`.
+    let params = ["pattern", "x", "ignore.case", "perl", "fixed", "useBytes"];
+    let is_unclear = match_arguments(&grepl_args, &params).is_none();
+
+    if has_unnamed_optional_grepl_arg || is_unclear {
         return Ok(Some(Diagnostic::new(ExpectNoMatch, range, Fix::empty())));
     }
 
-- 
2.43.0


From b431ce9099608977e69a277dd593992884c60d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 79/91] fix: expect_named, expect_null, expect_true_false:
 match arguments as R does

---
 .../src/lints/testthat/expect_named/expect_named.rs       | 5 +++--
 .../src/lints/testthat/expect_null/expect_null.rs         | 8 +++++---
 .../lints/testthat/expect_true_false/expect_true_false.rs | 5 +++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..02d007a 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -101,7 +101,8 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}expect_named({}, {})", namespace_prefix, x_text, n_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments would get lost.
+            to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 2,
         },
     );
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..97ad569 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -90,7 +90,8 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
             content: format!("{}expect_null({})", namespace_prefix, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments would get lost.
+            to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 2,
         },
     );
 
@@ -133,7 +134,8 @@ fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>>
             content: format!("{}expect_null({})", namespace_prefix, inner_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments would get lost.
+            to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 1,
         },
     );
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..450d736 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -105,7 +105,8 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}{}({})", namespace_prefix, new_function, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments would get lost.
+            to_skip: node_contains_comments(ast.syntax()) || args.iter().count() > 2,
         },
     );
 
-- 
2.43.0


From 64f0f5efef44abf99fa6c1a45d568625734ad097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 80/91] fix: sprintf: count named arguments, do not guess what
 ... stands for

---
 .../src/lints/base/sprintf/sprintf.rs         | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 04b6f57..3ed9839 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -1,7 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    get_arg_by_name_then_position, get_function_name, get_unnamed_args, node_contains_comments,
-};
+use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
@@ -113,12 +111,12 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(Some(diagnostic));
     }
 
-    let dots = get_unnamed_args(&args);
-    let len_dots = if fmt.name_clause().is_some() {
-        dots.len()
-    } else {
-        dots.len() - 1
-    };
+    // All arguments but `fmt` are passed to `...`, whether they are named or not.
+    let len_dots = args.iter().count() - 1;
+    let has_dots = args.iter().flatten().any(|arg| {
+        arg.value()
+            .is_some_and(|value| value.to_trimmed_string() == "...")
+    });
 
     // If any specifier uses positional references, use max position
     // Otherwise, sum up all arguments consumed (including * for width/precision)
@@ -128,7 +126,8 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         parse_result.all_args_consumed.iter().sum()
     };
 
-    if expected_args != len_dots {
+    // The number of arguments is unknown if some come from `...`.
+    if expected_args != len_dots && !has_dots {
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             ViolationData::new(
-- 
2.43.0


From f8a2ef19ee37708658874af66a7f794114284836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 81/91] fix: equals_null: do not report NULL %in% x

---
 crates/jarl-core/src/lints/base/equals_null/equals_null.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
index 7b0860c..1574ab1 100644
--- a/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
+++ b/crates/jarl-core/src/lints/base/equals_null/equals_null.rs
@@ -70,6 +70,12 @@ pub fn equals_null(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>
     if (left_is_null && right_is_null) || (!left_is_null && !right_is_null) {
         return Ok(None);
     }
+
+    // `NULL %in% x` is always `logical(0)`, this isn't a check for `NULL`.
+    if left_is_null && operator.kind() == RSyntaxKind::SPECIAL {
+        return Ok(None);
+    }
+
     let range = ast.syntax().text_trimmed_range();
 
     let replacement = if left_is_null {
-- 
2.43.0


From 33da96d287ff85d79b7992e8f543f8e1d9d55d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:29 +0000
Subject: [PATCH 82/91] fix: definitions in strings are no function definitions
 of the package

---
 .../duplicated_function_definition.rs         | 56 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs b/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
index 4d3d0fc..7394057 100644
--- a/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs
@@ -59,6 +59,8 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
     let mut results = Vec::new();
     let mut byte_offset: usize = 0;
     let mut line_no: u32 = 1;
+    // What ends the string that the line starts in.
+    let mut string_end: Option<Vec<u8>> = None;
 
     for line_with_ending in content.split_inclusive('\n') {
         // Strip \r\n or \n to get the line without its terminator
@@ -71,7 +73,9 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
         // Only look at unindented lines. In R packages, all top-level function
         // definitions are at column 1. Indented lines are inside function bodies
         // or control-flow blocks and must not be collected.
-        if leading == 0 && !trimmed.is_empty() && !trimmed.starts_with('#') {
+        let starts_in_string = string_end.is_some();
+        string_end = find_open_string(line_with_ending, string_end);
+        if !starts_in_string && leading == 0 && !trimmed.is_empty() && !trimmed.starts_with('#') {
             // Parse the leading identifier (R: alphanumeric + '.' + '_')
             let ident_end = trimmed
                 .find(|c: char| !c.is_alphanumeric() && c != '.' && c != '_')
@@ -119,6 +123,56 @@ pub fn scan_top_level_assignments(content: &str) -> Vec<(String, TextRange, u32,
     results
 }
 
+/// Returns what ends the string that is still open at the end of `line`, given
+/// the one that was open at its start.
+fn find_open_string(line: &str, mut string_end: Option<Vec<u8>>) -> Option<Vec<u8>> {
+    let bytes = line.as_bytes();
+    let mut i = 0;
+    while i < bytes.len() {
+        match &string_end {
+            // There are no escapes in raw strings.
+            Some(end) if end.len() == 1 && bytes[i] == b'\\' => i += 2,
+            Some(end) if bytes[i..].starts_with(end) => {
+                i += end.len();
+                string_end = None;
+            }
+            Some(_) => i += 1,
+            None => {
+                match bytes[i] {
+                    b'#' => break,
+                    quote @ (b'"' | b'\'' | b'`') => {
+                        let raw_end = raw_string_end(&line[..i], &bytes[i + 1..], quote);
+                        string_end = Some(raw_end.unwrap_or_else(|| vec![quote]));
+                    }
+                    _ => {}
+                }
+                i += 1;
+            }
+        }
+    }
+    string_end
+}
+
+/// Returns what ends the raw string whose opening `quote` is between `before` and
+/// `after`, e.g. `)--"` for `r"--(`. Returns `None` if this isn't a raw string.
+fn raw_string_end(before: &str, after: &[u8], quote: u8) -> Option<Vec<u8>> {
+    let before = before.strip_suffix(['r', 'R'])?;
+    if quote == b'`' || before.ends_with(|c: char| c.is_alphanumeric() || c == '.' || c == '_') {
+        return None;
+    }
+    let n_dashes = after.iter().take_while(|c| **c == b'-').count();
+    let closing = match after.get(n_dashes)? {
+        b'(' => b')',
+        b'[' => b']',
+        b'{' => b'}',
+        _ => return None,
+    };
+    let mut end = vec![closing];
+    end.extend(std::iter::repeat_n(b'-', n_dashes));
+    end.push(quote);
+    Some(end)
+}
+
 /// Compute duplicate assignments from pre-scanned shared file data.
 ///
 /// This is the inner logic extracted from `compute_package_duplicate_assignments`,
-- 
2.43.0


From 8dd72362d91bfd22094e8f4750b32aff4e7c44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:43 +0000
Subject: [PATCH 83/91] fix: string_boundary compares lengths also when
 operands are in parentheses

---
 .../lints/base/string_boundary/string_boundary.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index c4a68c2..4a6413a 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -162,9 +162,9 @@ fn may_differ(n: Option<f64>, string_expr: &AnyRExpression, more: f64) -> bool {
     let Some(n) = n else {
         return false;
     };
-    let Some(string) = string_expr
+    let Some(string) = without_parentheses(string_expr)
         .as_any_r_value()
-        .and_then(|value| value.as_r_string_value())
+        .and_then(|value| value.as_r_string_value().cloned())
     else {
         return false;
     };
@@ -176,8 +176,19 @@ fn may_differ(n: Option<f64>, string_expr: &AnyRExpression, more: f64) -> bool {
     string.chars().count() as f64 != n + more + 2.0
 }
 
+/// The code inside of `(code)`
+fn without_parentheses(expr: &AnyRExpression) -> AnyRExpression {
+    let mut expr = expr.clone();
+    while let AnyRExpression::RParenthesizedExpression(outer) = &expr {
+        let Ok(inner) = outer.body() else { break };
+        expr = inner;
+    }
+    expr
+}
+
 /// The value of a numeric literal, NaN if this can't tell.
 fn literal_number(expr: &AnyRExpression) -> Option<f64> {
+    let expr = without_parentheses(expr);
     let value = expr.as_any_r_value()?;
     if value.as_r_integer_value().is_none() && value.as_r_double_value().is_none() {
         return None;
-- 
2.43.0


From 134f4098c4b02e249c3950139f0a48707e83b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:00 +0000
Subject: [PATCH 84/91] fix: suppression comments for a statement after another
 one on the same line

The comment was put above the line, where it belongs to the first
statement of that line only.
---
 crates/jarl-core/src/suppression_edit.rs | 33 ++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index 8c4b000..7033a8f 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -177,6 +177,7 @@ pub fn compute_suppression_insert_point(
     // 1. Inside control flow (if/for/while): use the LARGEST meaningful expression
     //    so all violations in the same condition get the same insert point
     // 2. Outside control flow: use the FIRST expression on its own line (more targeted)
+    let shares_line = statement_after_another(source, &start_node);
     let mut current = start_node;
     let mut last_meaningful: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
     let mut first_meaningful_on_own_line: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
@@ -273,12 +274,44 @@ pub fn compute_suppression_insert_point(
             line: line_number,
             needs_leading_newline: true,
         });
+    } else if let Some(offset) = shares_line {
+        // A comment above the line would belong to the first statement of the line.
+        return Some(SuppressionInsertPoint {
+            offset,
+            indent: compute_inline_indent(source, offset),
+            line: count_lines_to(source, offset),
+            needs_leading_newline: true,
+        });
     }
 
     // Fallback to simple insertion
     compute_simple_insert_point(source, diagnostic_start)
 }
 
+/// The start of the statement that contains `node`, if that statement follows another one on the
+/// same line (`x; y`).
+fn statement_after_another(
+    source: &str,
+    node: &SyntaxNode<air_r_syntax::RLanguage>,
+) -> Option<usize> {
+    for ancestor in node.ancestors() {
+        let start: usize = ancestor.text_trimmed_range().start().into();
+        if is_on_own_line(source, start) {
+            return None;
+        }
+        let in_list = ancestor
+            .parent()
+            .is_some_and(|parent| parent.kind() == RSyntaxKind::R_EXPRESSION_LIST);
+        if in_list && let Some(previous) = ancestor.prev_sibling() {
+            let end: usize = previous.text_trimmed_range().end().into();
+            if !source[end..start].contains('\n') {
+                return Some(start);
+            }
+        }
+    }
+    None
+}
+
 /// Check if a position is on its own line (preceded only by whitespace after a newline)
 fn is_on_own_line(source: &str, offset: usize) -> bool {
     if offset == 0 {
-- 
2.43.0


From 99243d6fd6c00aa98bc99289cbfee4d3fab76c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 85/91] fix: no suppression comments for diagnostics about
 suppression comments

They cannot be suppressed, so that --add-jarl-ignore and the actions of the
language server only added comments that are reported as outdated, on every
run again.
---
 crates/jarl-core/src/suppression_edit.rs | 18 ++++++++++++++++--
 crates/jarl-lsp/src/server.rs            |  6 ++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index 7033a8f..2712146 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -9,6 +9,8 @@ use air_r_parser::RParserOptions;
 use air_r_syntax::RSyntaxKind;
 use biome_rowan::{AstNode, SyntaxNode, TextRange, TextSize};
 
+use crate::rule_set::{Category, Rule};
+
 /// Information about where to insert a suppression comment
 #[derive(Debug, Clone)]
 pub struct SuppressionInsertPoint {
@@ -442,6 +444,12 @@ pub fn parse_existing_suppression(line: &str) -> Option<(String, Option<Vec<Stri
     None
 }
 
+/// Whether comments can suppress the diagnostics of this rule. Those about the suppression comments
+/// themselves are always reported.
+pub fn can_be_suppressed(rule_name: &str) -> bool {
+    Rule::from_name(rule_name).is_none_or(|rule| !rule.has_category(Category::Comm))
+}
+
 /// Create a suppression edit for a diagnostic located inside an Rmd/Qmd file.
 ///
 /// Finds the R chunk that contains the diagnostic (using its file-level byte
@@ -452,8 +460,8 @@ pub fn parse_existing_suppression(line: &str) -> Option<(String, Option<Vec<Stri
 /// The inserted comment uses the standard `# jarl-ignore <rule>: <reason>`
 /// form (not the `#|` pipe-option style).
 ///
-/// Returns `None` if no chunk contains the diagnostic range or if the chunk
-/// code cannot be parsed.
+/// Returns `None` if no chunk contains the diagnostic range, if the chunk
+/// code cannot be parsed or if no comment can suppress the diagnostic.
 pub fn create_suppression_edit_in_rmd(
     file_content: &str,
     diagnostic_start: usize,
@@ -461,6 +469,9 @@ pub fn create_suppression_edit_in_rmd(
     rule_name: &str,
     explanation: &str,
 ) -> Option<SuppressionEdit> {
+    if !can_be_suppressed(rule_name) {
+        return None;
+    }
     let chunks = crate::rmd::extract_r_chunks(file_content);
     for chunk in &chunks {
         let chunk_end = chunk.start_byte + chunk.code.len();
@@ -494,6 +505,9 @@ pub fn create_suppression_edit(
     rule_name: &str,
     explanation: &str,
 ) -> Option<SuppressionEdit> {
+    if !can_be_suppressed(rule_name) {
+        return None;
+    }
     let insert_point = compute_suppression_insert_point(source, diagnostic_start, diagnostic_end)?;
     let comment_text = format_suppression_comments(
         &[rule_name],
diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 1c61f0b..452be2e 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -537,6 +537,9 @@ impl Server {
         let fix_data = diagnostic.data.as_ref()?;
         let fix: crate::lint::DiagnosticFix = serde_json::from_value(fix_data.clone()).ok()?;
         let rule_name = &fix.rule_name;
+        if !suppression_edit::can_be_suppressed(rule_name) {
+            return None;
+        }
 
         // For Rmd/Qmd files we need to locate the right chunk before computing
         // the insertion point; for plain R files we use the normal path.
@@ -649,6 +652,9 @@ impl Server {
         let fix_data = diagnostic.data.as_ref()?;
         let fix: crate::lint::DiagnosticFix = serde_json::from_value(fix_data.clone()).ok()?;
         let rule_name = &fix.rule_name;
+        if !jarl_core::suppression_edit::can_be_suppressed(rule_name) {
+            return None;
+        }
 
         // Find the chunk that contains the diagnostic.
         let chunks = jarl_core::rmd::extract_r_chunks(content);
-- 
2.43.0


From eaddb96a49545351482574281ee6ccacd67c22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 86/91] fix: offer to suppress what comments nearby do not
 suppress

Comments that only look like a suppression of the rule (another rule whose
name begins the same, several rules, no explanation, other text) kept the
editor from offering to suppress what is still reported.
---
 crates/jarl-lsp/src/server.rs | 42 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 452be2e..c4b89da 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -529,6 +529,7 @@ impl Server {
         diagnostic: &types::Diagnostic,
         snapshot: &DocumentSnapshot,
     ) -> Option<types::CodeAction> {
+        use jarl_core::directive::{DirectiveParseResult, LintDirective, parse_comment_directive};
         use jarl_core::suppression_edit;
 
         let content = snapshot.content();
@@ -570,18 +571,12 @@ impl Server {
         if insert_point.line > 0
             && !insert_point.needs_leading_newline
             && let Some(prev_line_text) = Self::get_line_text(content, insert_point.line - 1)
-            && let Some((_, existing_rules)) =
-                suppression_edit::parse_existing_suppression(&prev_line_text)
+            && let Some(DirectiveParseResult::Valid(LintDirective::Ignore(rule))) =
+                parse_comment_directive(prev_line_text.trim())
+            && rule.name() == rule_name
         {
-            match existing_rules {
-                Some(rules) if rules.iter().any(|r| r == rule_name) => {
-                    // Rule already suppressed
-                    return None;
-                }
-                _ => {
-                    // No rules or other rules - we'll add a new line
-                }
-            }
+            // Rule already suppressed
+            return None;
         }
 
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
@@ -638,6 +633,11 @@ impl Server {
         diagnostic: &types::Diagnostic,
         snapshot: &DocumentSnapshot,
     ) -> Option<types::CodeAction> {
+        use jarl_core::directive::{
+            DirectiveParseResult, LintDirective, is_quarto_chunk_array_header,
+            parse_quarto_chunk_array_item,
+        };
+
         // Only meaningful for Rmd/Qmd files.
         let is_rmd = snapshot
             .file_path()
@@ -664,11 +664,21 @@ impl Server {
         })?;
 
         // Skip if this rule is already suppressed for the whole chunk.
-        // Check both the legacy single-line form and the YAML-array form.
-        let already_suppressed = chunk
-            .code
-            .contains(&format!("jarl-ignore-chunk {rule_name}"))
-            || chunk.code.contains(&format!("- {rule_name}:"));
+        let mut in_array = false;
+        let already_suppressed = chunk.code.lines().any(|line| {
+            if is_quarto_chunk_array_header(line) {
+                in_array = true;
+                return false;
+            }
+            let item = parse_quarto_chunk_array_item(line);
+            in_array &= item.is_some();
+            in_array
+                && matches!(
+                    item,
+                    Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(rule)))
+                        if rule.name() == rule_name
+                )
+        });
         if already_suppressed {
             return None;
         }
-- 
2.43.0


From 9c3b56c1918be174eab3371e50cf2913d7fe9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:41 +0000
Subject: [PATCH 87/91] fix: lengths: no fix if argument names make length()
 another argument

---
 crates/jarl-core/src/lints/base/lengths/lengths.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index c323a91..9886da9 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -73,7 +73,13 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             "vapply" => &["X", "FUN", "FUN.VALUE"],
             _ => &[".x", ".f"],
         };
-        let has_other_args = match_arguments(&arguments, params).is_none();
+        // And `length` isn't the function in `vapply(f, X = x, length)`.
+        let is_unclear = match_arguments(&arguments, params).is_none_or(|args| {
+            !args[1]
+                .as_ref()
+                .and_then(|arg| arg.value())
+                .is_some_and(|fun| fun.to_trimmed_text() == "length")
+        });
 
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
@@ -83,7 +89,7 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()) || has_other_args,
+                to_skip: node_contains_comments(ast.syntax()) || is_unclear,
             },
         );
         return Ok(Some(diagnostic));
-- 
2.43.0


From f4c47685b3d892ea10ff0021ffa63c6e9faf0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:41 +0000
Subject: [PATCH 88/91] fix: string_boundary: parentheses do not hide the
 length that is compared

---
 .../src/lints/base/string_boundary/string_boundary.rs       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 4a6413a..4deafb2 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -199,12 +199,14 @@ fn literal_number(expr: &AnyRExpression) -> Option<f64> {
 
 /// The `n` in `nchar(x) - n`
 fn offset_from_nchar(expr: &AnyRExpression, x_expr: &AnyRExpression) -> Option<f64> {
-    if is_nchar_of_same_expr(expr, x_expr) {
+    let expr = without_parentheses(expr);
+    if is_nchar_of_same_expr(&expr, x_expr) {
         return Some(0.0);
     }
     let RBinaryExpressionFields { left, operator, right } =
         expr.as_r_binary_expression()?.as_fields();
-    if operator.ok()?.kind() != RSyntaxKind::MINUS || !is_nchar_of_same_expr(&left.ok()?, x_expr) {
+    let left = without_parentheses(&left.ok()?);
+    if operator.ok()?.kind() != RSyntaxKind::MINUS || !is_nchar_of_same_expr(&left, x_expr) {
         return None;
     }
     literal_number(&right.ok()?)
-- 
2.43.0


From 54e9b8eeed2e2814499e33ca9daf047f717df341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:51 +0000
Subject: [PATCH 89/91] fix: refuse an empty reason for --add-jarl-ignore, its
 comments would not be used

---
 crates/jarl/src/commands/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 7a1a63c..c669bb3 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -325,6 +325,13 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    // Comments without an explanation aren't used
+    if reason.trim().is_empty() {
+        return Err(anyhow::anyhow!(
+            "--add-jarl-ignore=<reason> cannot be empty."
+        ));
+    }
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
-- 
2.43.0


From 0406ff35601c370c246d1ebdcbfa359d1ed65d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:17 +0000
Subject: [PATCH 90/91] fix: put suppression comments above the statement if no
 line in between belongs to it

---
 crates/jarl-core/src/suppression_edit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index 2712146..95280eb 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -180,6 +180,10 @@ pub fn compute_suppression_insert_point(
     //    so all violations in the same condition get the same insert point
     // 2. Outside control flow: use the FIRST expression on its own line (more targeted)
     let shares_line = statement_after_another(source, &start_node);
+    let starts_line = start_node
+        .ancestors()
+        .map(|node| usize::from(node.text_trimmed_range().start()))
+        .find(|start| is_on_own_line(source, *start));
     let mut current = start_node;
     let mut last_meaningful: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
     let mut first_meaningful_on_own_line: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
@@ -286,8 +290,10 @@ pub fn compute_suppression_insert_point(
         });
     }
 
-    // Fallback to simple insertion
-    compute_simple_insert_point(source, diagnostic_start)
+    // Fallback to simple insertion. The line of the diagnostic can start with the end of another
+    // expression, e.g. `} else {}`, to which the comment would belong, so this takes the line where
+    // an expression that contains the diagnostic starts.
+    compute_simple_insert_point(source, starts_line.unwrap_or(diagnostic_start))
 }
 
 /// The start of the statement that contains `node`, if that statement follows another one on the
-- 
2.43.0


From d87accaa86d6598be45f13c0e8105a85e7e3e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:05 +0000
Subject: [PATCH 91/91] fix: do not read the user's configuration if that of
 the project applies to all paths

---
 crates/jarl-core/src/discovery.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 9aa80c9..d8c7cab 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -71,6 +71,9 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
 
             if !is_new_ancestor {
                 // We already visited this ancestor, we can stop here.
+                found_config = discovered_settings
+                    .iter()
+                    .any(|found: &DiscoveredSettings| ancestor.starts_with(&found.directory));
                 break;
             }
 
-- 
2.43.0

