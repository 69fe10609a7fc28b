From f0c4efdd3d5a07070babb954bd98972ab74a7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 01/22] fix: CLI reported success for files with issues and
 failure for clean files

---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From 829ce9554a1121ca548a37ca59850e4afdbd8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 02/22] fix: 'expected' diagnostic named the token that was
 found instead of the expected one

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..87ecd7d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -444,7 +444,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From 06a8016289557e447b83015898de603324c3f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 03/22] fix: cursor lookup returned the reference of any
 delete-node or omit-if-no-ref directive regardless of the cursor

---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From f30ebf8afbaf437d1290b4d075b00846bfc4126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 04/22] fix: printing a diagnostic that spans several lines
 panicked

---
 ginko/src/dts/diagnostics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..c1c27b0 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,7 +197,12 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
+        let len = if start.line() != end.line() {
+            // Only the part of the span on its first line is displayed and underlined.
+            (line.chars().count() as u32)
+                .saturating_sub(start.character())
+                .max(1)
+        } else if start.character() == end.character() {
             1
         } else {
             end.character() - start.character()
-- 
2.43.0


From fd32f12d449b0fa2db8530f43cd2083713c27125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 05/22] fix: files could be analyzed before the files they
 include, or panic on includes that cannot be read

---
 ginko/src/dts/project.rs | 54 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..c06bb75 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -127,35 +127,39 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed:
+    /// every file comes after all files that it includes
+    /// (unless these files include each other).
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
-            }
+        let mut order = Vec::with_capacity(self.files.len());
+        let mut visited = HashSet::new();
+        for path in self.files.keys().sorted() {
+            self.push_after_includes(path, &mut visited, &mut order);
+        }
+        order
+    }
+
+    fn push_after_includes(
+        &self,
+        path: &PathBuf,
+        visited: &mut HashSet<PathBuf>,
+        order: &mut Vec<PathBuf>,
+    ) {
+        // Includes that could not be read are not part of the project
+        let Some(project_file) = self.files.get(path) else {
+            return;
+        };
+        if !visited.insert(path.clone()) {
+            return;
         }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
+        if let Some(dts_file) = &project_file.file {
+            for include in dts_file.elements.iter().filter_map(|el| el.as_include()) {
+                if let Ok(include_path) = include.path() {
+                    self.push_after_includes(&include_path, visited, order);
                 }
             }
         }
-        current_order
+        order.push(path.clone());
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 9addd289f41b37df750b49537f1e1203f8bb2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 06/22] fix: strings with non-ASCII characters were decoded
 byte by byte

---
 ginko/src/dts/tokens/lexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 87ecd7d..967ac83 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut buf: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        buf.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,9 +230,10 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        buf.push(b'"');
                         is_escaped = false;
                     } else {
+                        let str = String::from_utf8(buf).unwrap();
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::String(str),
@@ -244,7 +245,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    buf.push(ch)
                 }
             }
         }
-- 
2.43.0


From 8953b9a5e4a1564af2239d609021decbfdaf54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 07/22] fix: byte strings accepted a plus sign in place of a
 hexadecimal digit

---
 ginko/src/dts/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..f53d4a7 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -284,14 +284,14 @@ where
                     return Ok(WithToken::new(vec![], tok));
                 }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
-                for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
-                    match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
-                        Ok(byte) => bytes.push(byte),
-                        Err(err) => {
-                            self.diagnostics.push(Diagnostic::parse_int_error(
-                                tok.span(),
-                                tok.source(),
-                                err,
+                for (first, second) in raw_str.chars().tuples() {
+                    match (first.to_digit(16), second.to_digit(16)) {
+                        (Some(high), Some(low)) => bytes.push((high * 16 + low) as u8),
+                        _ => {
+                            self.diagnostics.push(Diagnostic::from_token(
+                                tok.clone(),
+                                ErrorCode::IntError,
+                                "invalid digit found in string",
                             ));
                             return Ok(WithToken::new(vec![], tok));
                         }
-- 
2.43.0


From 75d257e860299f5e0b03cc36106280a3db97cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 08/22] fix: unterminated comments, strings and references at
 the end of a file were silently ignored

---
 ginko/src/dts/tokens/lexer.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 967ac83..435b99f 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -75,6 +75,15 @@ where
         vec
     }
 
+    // A comment, string or path reference that starts with `ch` but never ends
+    fn unterminated(&self, start: Position, ch: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(ch),
+            source: self.source(),
+        }
+    }
+
     pub fn pos(&self) -> Position {
         self.reader.pos()
     }
@@ -83,19 +92,20 @@ where
     // x = <&ref>
     //       ^~~ cursor is here
     fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
-        match ch {
-            b'{' => {
+        match self.reader.peek() {
+            Some(b'{') => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
+                if self.reader.consume().is_none() {
+                    return Some(self.unterminated(start, b'&'));
+                }
                 Some(Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            Some(b'a'..=b'z' | b'A'..=b'Z') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
@@ -165,7 +175,9 @@ where
     fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'/'));
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
@@ -218,7 +230,9 @@ where
         let mut is_escaped: bool = false;
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'"'));
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
-- 
2.43.0


From 9192d33a762dc255203ec8d123595585f0f82996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 09/22] fix: references to a label were not resolved after its
 node was re-opened without the label

---
 ginko/src/dts/analysis.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..dc2e602 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -36,6 +36,7 @@ impl Analysis {
 #[derive(Clone)]
 pub struct AnalysisContext {
     labels: HashMap<String, Labeled>,
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
 }
 
@@ -68,6 +69,9 @@ pub struct FileContext<'a> {
     project: &'a Project,
     diagnostics: Vec<Diagnostic>,
     labels: HashMap<String, Labeled>,
+    // The paths of all labeled nodes. A node keeps its label
+    // when it is re-opened without repeating the label.
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
     unresolved_references: Vec<WithToken<Reference>>,
     file_type: FileType,
@@ -81,10 +85,8 @@ impl FileContext<'_> {
         self.diagnostics.push(diagnostic);
     }
 
-    pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+    pub fn resolve_reference(&self, label: &String) -> Option<&Path> {
+        self.label_paths.get(label)
     }
 }
 
@@ -94,6 +96,7 @@ impl FileContext<'_> {
             context: AnalysisContext {
                 flat_nodes: self.flat_nodes,
                 labels: self.labels,
+                label_paths: self.label_paths,
             },
             diagnostics: self.diagnostics,
         }
@@ -110,6 +113,7 @@ impl Analysis {
         let mut ctx = FileContext {
             file_type,
             labels: HashMap::default(),
+            label_paths: HashMap::default(),
             diagnostics: Vec::default(),
             flat_nodes: HashMap::default(),
             unresolved_references: Vec::default(),
@@ -204,6 +208,7 @@ impl Analysis {
         if let Some(context) = proj_file.context.as_ref() {
             ctx.flat_nodes.extend(context.flat_nodes.clone());
             ctx.labels.extend(context.labels.clone());
+            ctx.label_paths.extend(context.label_paths.clone());
         }
     }
 
@@ -237,7 +242,7 @@ impl Analysis {
                     self.unresolved_reference_error(ctx, reference.span(), reference.source());
                     Path::empty()
                 }
-                Some((path, _)) => path.clone(),
+                Some(path) => path.clone(),
             },
             Reference::Path(path) => {
                 if !ctx.flat_nodes.contains_key(path) {
@@ -282,6 +287,7 @@ impl Analysis {
         if let Some(label) = &node.label {
             ctx.labels
                 .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.label_paths.insert(label.item().clone(), path.clone());
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 2ab418686e423221dfd0f336e5005a1821ef71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 10/22] fix: the language server applied the first instead of
 the last of several text changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..b6f5da4 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Each change holds the full text; they are to be applied in order.
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 0d7994f3445f3b7f29648db30dded75d8d3eb112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 11/22] fix: illegal characters in unit addresses and path
 references were reported at the wrong column

---
 ginko/src/dts/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index f53d4a7..42305a3 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -141,7 +141,8 @@ where
         );
         if let Some(unit_address) = &name.unit_address {
             self.check_ident(
-                span,
+                // The unit address starts behind the name and the '@' sign
+                span.extend_start(name.name.chars().count() as i32 + 1),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -178,10 +179,18 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // The first path component starts behind the "&{"
+                let mut offset = 2;
+                for component in path.split('/') {
+                    if !component.is_empty() {
+                        self.check_is_node_name(
+                            token.span().extend_start(offset),
+                            &NodeName::from(component),
+                        );
+                    }
+                    offset += component.chars().count() as i32 + 1;
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
-- 
2.43.0


From 724f74dee5bd3e6724db18b9c4458383e80cd074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 12/22] fix: all earlier issues of a file were dropped when
 parsing stopped at a fatal error

---
 ginko/src/dts/project.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index c06bb75..8791401 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -264,8 +268,11 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                parser.diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(parser.diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From ad940ccfc2ce5c5a8d23b9a4086a9eb3d48ad5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 13/22] fix: columns behind non-ASCII characters were counted
 in bytes instead of UTF-16 code units

---
 ginko/src/dts/parser.rs       |  2 +-
 ginko/src/dts/reader.rs       | 12 +++++++++++-
 ginko/src/dts/tokens/lexer.rs | 11 ++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 42305a3..39816e3 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -188,7 +188,7 @@ where
                             &NodeName::from(component),
                         );
                     }
-                    offset += component.chars().count() as i32 + 1;
+                    offset += component.encode_utf16().count() as i32 + 1;
                 }
                 let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..7e35968 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,7 +52,17 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
-            _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
+            _ => {
+                // Characters are counted in UTF-16 code units (see `Position`)
+                let width = match ch {
+                    // Continuation byte; already counted by the leading byte
+                    0x80..=0xbf => 0,
+                    // Leading byte of a four byte sequence
+                    0xf0..=0xff => 2,
+                    _ => 1,
+                };
+                self.pos = Position::new(self.pos.line(), self.pos.character() + width);
+            }
         }
         Some(ch)
     }
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 435b99f..a80909c 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -373,7 +373,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // Do not split characters that consist of more than one byte
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xbf)) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From 3b5b72ba9a0a5d0a0f7b105524180baab2de23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 14/22] fix: the language server crashed on files that do not
 exist on the disk

---
 ginko/src/dts/project.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 8791401..870080e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -75,6 +75,13 @@ impl ProjectFile {
     }
 }
 
+/// The path under which a file is known to the project.
+/// Files that do not exist on the disk (for example since they have been opened in an editor
+/// and were not saved yet, or were deleted in the meantime) are known by the name they were given.
+fn project_path(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Default)]
 pub struct Project {
     files: HashMap<PathBuf, ProjectFile>,
@@ -106,11 +113,8 @@ impl Project {
     /// * file_name: The name of the file.
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
-    ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = project_path(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -167,9 +171,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&project_path(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -301,10 +303,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&project_path(path))
     }
 }
 
-- 
2.43.0


From 1ad673f2150fc2b6adc1fca8b2eb159650972dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 15/22] fix: includes that cannot be resolved were reported
 twice

---
 ginko/src/dts/analysis.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index dc2e602..eba566c 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -176,12 +176,9 @@ impl Analysis {
     }
 
     fn analyze_include(&mut self, ctx: &mut FileContext<'_>, parent: &DtsFile, include: &Include) {
-        let path = match include.path() {
-            Ok(path) => path,
-            Err(err) => {
-                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+        // Includes that cannot be resolved are reported when the file is parsed
+        let Ok(path) = include.path() else {
+            return;
         };
         if let Err(err) = self
             .import_guard
-- 
2.43.0


From 35d14675cab2f8117945ed61eb1b6750a6dba365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 16/22] fix: a dts-v1 header behind a delete-node directive was
 not reported as misplaced

---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index eba566c..738ad1f 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -150,6 +150,7 @@ impl Analysis {
                     AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
                     AnyDirective::DeletedNode(_, reference) => {
                         self.resolve_reference(&mut ctx, reference);
+                        ctx.first_non_include = true
                     }
                 },
                 Primary::Root(root_node) => {
-- 
2.43.0


From 18197a9145d131769b3914d65ff6366215b35145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 17/22] fix: unresolvable references in omit-if-no-ref
 directives were not reported

---
 ginko/src/dts/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 738ad1f..e68642f 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -147,8 +147,8 @@ impl Analysis {
                         ctx.first_non_include = true;
                         ctx.is_plugin = true
                     }
-                    AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
-                    AnyDirective::DeletedNode(_, reference) => {
+                    AnyDirective::OmitIfNoRef(_, reference)
+                    | AnyDirective::DeletedNode(_, reference) => {
                         self.resolve_reference(&mut ctx, reference);
                         ctx.first_non_include = true
                     }
-- 
2.43.0


From cf74e78f37e0a3c5ff7d36ac8712b1a8d6a42aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 18/22] verif: re-export internals for the verification harness
 under cfg(ginko_verif)

---
 ginko/src/dts/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 0ea2ce3..51cb37d 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 /// Module for analyzing Device-Tree Source files
 mod analysis;
 mod ast;
@@ -21,3 +22,12 @@ pub use parser::Parser;
 pub use parser::ParserContext;
 pub use project::Project;
 pub use visitor::ItemAtCursor;
+
+// Access to internals for the verification harness (built with `--cfg ginko_verif`)
+#[cfg(ginko_verif)]
+pub mod verif {
+    pub use super::ast::*;
+    pub use super::import_guard::*;
+    pub use super::reader::*;
+    pub use super::tokens::*;
+}
-- 
2.43.0


From 7e5863b89dc7839100396a3c54dcd75c84298f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 19/22] verif: keep the two Reference types of the re-exported
 internals apart

---
 ginko/src/dts/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 51cb37d..4312666 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -26,7 +26,9 @@ pub use visitor::ItemAtCursor;
 // Access to internals for the verification harness (built with `--cfg ginko_verif`)
 #[cfg(ginko_verif)]
 pub mod verif {
-    pub use super::ast::*;
+    pub mod ast {
+        pub use crate::dts::ast::*;
+    }
     pub use super::import_guard::*;
     pub use super::reader::*;
     pub use super::tokens::*;
-- 
2.43.0


From 57be9a484bd03090c70b7cd95fceaf789cbbdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 20/22] fix: labels and omit-if-no-ref directives in front of a
 closing brace were silently accepted

---
 ginko/src/dts/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 39816e3..a1efe7f 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -518,6 +518,13 @@ where
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
                 TokenKind::CloseBrace => {
+                    if label.is_some() || omit_if_no_ref.is_some() {
+                        self.diagnostics.push(Diagnostic::expected(
+                            tok.span(),
+                            tok.source(),
+                            &[TokenKind::Ident("".to_string())],
+                        ));
+                    }
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From a76781669aeff0e6e5e8ecebe2035682dcfc1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:34 +0000
Subject: [PATCH 21/22] fix: balanced expressions at the end of a file were
 reported as unbalanced

---
 ginko/src/dts/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index a1efe7f..d7f170c 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -225,8 +225,7 @@ where
                 }
             }
             TokenKind::OpenParen => {
-                self.skip_expression_starting_with_paren();
-                if self.lexer.peek().is_none() {
+                if !self.skip_expression_starting_with_paren() {
                     self.diagnostics.push(Diagnostic::from_token(
                         tok,
                         ErrorCode::UnbalancedParentheses,
@@ -322,7 +321,9 @@ where
         }
     }
 
-    fn skip_expression_starting_with_paren(&mut self) {
+    /// Skips an expression whose opening parenthesis was already consumed.
+    /// Returns whether the matching closing parenthesis was found.
+    fn skip_expression_starting_with_paren(&mut self) -> bool {
         let mut depth = 1;
         loop {
             let peeked = self.lexer.peek();
@@ -345,10 +346,10 @@ where
                 depth -= 1;
                 self.skip_tok();
                 if depth == 0 {
-                    return;
+                    return true;
                 }
             } else if peeked.is_none() {
-                return;
+                return false;
             } else {
                 self.skip_tok();
             }
-- 
2.43.0


From 3dc435d76fc570c5688f619d7b2e73486195fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 22/22] fix: columns of illegal unit addresses behind non-BMP
 characters were off

---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index d7f170c..56ceed9 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -142,7 +142,7 @@ where
         if let Some(unit_address) = &name.unit_address {
             self.check_ident(
                 // The unit address starts behind the name and the '@' sign
-                span.extend_start(name.name.chars().count() as i32 + 1),
+                span.extend_start(name.name.encode_utf16().count() as i32 + 1),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
-- 
2.43.0

