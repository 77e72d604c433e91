From 204915e9a1ab941671af03eba23f47357d412b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 01/18] fix: read the escape \b in strings as a backspace,
 U+0008

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From 521ee934e92ae2d03b444e16fd2353c458fd7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 02/18] fix: write \u escapes in hexadecimal

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..ea5ec6d 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -144,7 +144,7 @@ impl<'a> Formatter<'a> {
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
                     '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From 4ffa35fdf08ce24346ad3a116b2998b3cfd45b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 03/18] fix: print characters beyond the basic multilingual
 plane as they are

---
 src/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index ea5ec6d..2ff40f8 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,7 +129,7 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
+                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
                 _ => has_nonprintable = true,
             }
         }
@@ -143,7 +143,7 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
+                    '\u{0020}'..='\u{10FFFF}' => self.buf.push(c),
                     _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
-- 
2.43.0


From f369fe3cee7b117bc206a4629efb748c894cacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 04/18] fix: print the variables of subscriptions like those of
 queries

---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From 2b661294a7b181971076d1de901ad6aa883dde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 05/18] fix: refuse a float literal too large to be finite

---
 src/common.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..f97ee77 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -165,8 +165,12 @@ where
     S: Text<'a>,
 {
     kind(T::FloatValue)
-        .and_then(|tok| tok.value.parse())
-        .map(Value::Float)
+        .and_then(|tok| match tok.value.parse() {
+            Ok(val) if f64::is_finite(val) => Ok(Value::Float(val)),
+            _ => Err(Error::Unexpected(Info::Owned(
+                format_args!("float {:?} is out of range", tok.value).to_string(),
+            ))),
+        })
         .parse_stream(input)
         .into_result()
 }
-- 
2.43.0


From c7b24d17f8c122d122022783145b2cb688f5e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 06/18] fix: print floats beyond the integer range so that they
 can be read back

---
 src/query/format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..ded0054 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -251,7 +251,14 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            Value::Float(val) => {
+                let text = val.to_string();
+                f.write(&text);
+                // an integral float may be written as an integer only while it can be read as one
+                if val.is_finite() && !text.contains('.') && text.parse::<i64>().is_err() {
+                    f.write(".0");
+                }
+            }
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From b494d89dff08431c92291a4bfa722fc3ddf17014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 07/18] fix: count only spaces and tabs as indentation of a
 block string

---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index f97ee77..ec9451a 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -183,7 +183,8 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // only spaces and tabs are white space in GraphQL
+        let indent = line.len() - line.trim_start_matches(&[' ', '\t'][..]).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From 8a546183ea707d7543bbe14f2fb7d7cb287cd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 08/18] fix: remove the indentation of block string lines
 shorter than it

---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index ec9451a..e7db9d6 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -211,8 +211,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // a line that is shorter consists of white space only
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0


From cf1093226a51e84a2e29ed2dc237e80c4fbffa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 09/18] fix: print as a block string only what reads back the
 same

---
 src/format.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 2ff40f8..3b11314 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -47,6 +47,19 @@ pub(crate) trait Displayable {
     fn display(&self, f: &mut Formatter);
 }
 
+/// Whether a block string, written with its lines indented, reads back as exactly this.
+fn fits_block_string(s: &str) -> bool {
+    let is_white = |c: char| c == ' ' || c == '\t';
+    let is_blank = |line: &str| line.chars().all(is_white);
+    let mut lines = s.split('\n');
+    // blank lines at either end are not part of the value, nor is common indentation
+    !s.contains('\r')
+        && !lines.clone().next().map_or(true, is_blank)
+        && !lines.clone().next_back().map_or(true, is_blank)
+        && !lines.clone().any(|line| !line.is_empty() && is_blank(line))
+        && lines.any(|line| !line.is_empty() && !line.starts_with(is_white))
+}
+
 impl<'a> Formatter<'a> {
     pub fn new(style: &Style) -> Formatter {
         Formatter {
@@ -133,7 +146,7 @@ impl<'a> Formatter<'a> {
                 _ => has_nonprintable = true,
             }
         }
-        if !has_newline || has_nonprintable {
+        if !has_newline || has_nonprintable || !fits_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +166,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
-- 
2.43.0


From 51cf343bef5af5644f5564a5c5c812f48220522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 10/18] fix: count one line for a comment that ends in CR LF

---
 src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..efb59bd 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -325,9 +325,13 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
                         if cur_char == '\r' || cur_char == '\n' {
+                            // a CR LF pair ends a single line
+                            if cur_char == '\r' && iter.as_str().starts_with('\n') {
+                                iter.next();
+                            }
                             self.position.column = 1;
                             self.position.line += 1;
                             break;
-- 
2.43.0


From 34e74a4a28f6eb8d635a146943611fc02670d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 11/18] fix: accept unsigned float exponents that start with 9

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index efb59bd..1f3219a 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
-- 
2.43.0


From 2139939253545cb23e4f7f49e9b83faa88047fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 12/18] fix: refuse a float whose signed exponent has no digits

---
 src/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 1f3219a..b384727 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -112,6 +112,9 @@ fn check_exp(value: &str) -> bool {
     if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
+    if first == '-' || first == '+' {
+        return check_dec(&value[1..]);
+    }
 
     value[1..].chars().all(|x| x.is_ascii_digit())
 }
-- 
2.43.0


From afaa77724702269cf40c66ff6286988cd8a82f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 13/18] fix: end a number at a string or a byte order mark

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index b384727..116fa76 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -231,7 +231,9 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => {
+                            break idx
+                        }
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From 20afc804382d5b0c44863c60aaa3f0c032b70785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/18] fix: refuse a sign among the digits of a \u escape

---
 src/common.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index e7db9d6..54057e2 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -265,6 +265,16 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
                         }
 
                         // convert our hex string into a u32, then convert that into a char
+                        // (from_str_radix would also take a sign)
+                        if temp_code_point.starts_with('+') {
+                            return Err(Error::Unexpected(Info::Owned(
+                                format_args!(
+                                    "{} is not a valid unicode code point",
+                                    temp_code_point
+                                )
+                                .to_string(),
+                            )));
+                        }
                         match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {
                             Ok(Some(unicode_char)) => res.push(unicode_char),
                             _ => {
-- 
2.43.0


From c31b0c9144c99b3f08d17488793345759ab34799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 15/18] fix: accept an interface extension that adds only
 interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From 74b04f4d17ea0dab031b2ab7fed82cc00f44e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 16/18] fix: refuse a directive definition without locations

---
 src/schema/grammar.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 62cee67..b3d01dc 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -570,13 +570,13 @@ where
 pub fn directive_locations<'a>(
     input: &mut TokenStream<'a>,
 ) -> StdParseResult<Vec<DirectiveLocation>, TokenStream<'a>> {
-    optional(optional(punct("|")).with(sep_by1(
-        kind(T::Name).and_then(|tok| tok.value.parse::<DirectiveLocation>()),
-        punct("|"),
-    )))
-    .map(|opt| opt.unwrap_or_default())
-    .parse_stream(input)
-    .into_result()
+    optional(punct("|"))
+        .with(sep_by1(
+            kind(T::Name).and_then(|tok| tok.value.parse::<DirectiveLocation>()),
+            punct("|"),
+        ))
+        .parse_stream(input)
+        .into_result()
 }
 
 pub fn directive_definition<'a, T>(
-- 
2.43.0


From b4541b143efba5f4eb5383719b2286ad2c734a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 17/18] fix: print a negative zero float so that it keeps its
 sign

---
 src/query/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index ded0054..5357a9c 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -255,7 +255,8 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 let text = val.to_string();
                 f.write(&text);
                 // an integral float may be written as an integer only while it can be read as one
-                if val.is_finite() && !text.contains('.') && text.parse::<i64>().is_err() {
+                let is_same = |int: i64| int.to_string() == text;
+                if val.is_finite() && !text.contains('.') && !text.parse().map_or(false, is_same) {
                     f.write(".0");
                 }
             }
-- 
2.43.0


From 7f363b997dcb2809195ed6913d909d267091a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 18/18] fix: say what is wrong with a malformed token after the
 last definition

---
 src/helpers.rs        | 36 +++++++++++++++++++++++++++++++++++-
 src/query/grammar.rs  |  6 +++---
 src/schema/grammar.rs |  6 +++---
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 5307092..4e50a9d 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use combine::error::Tracked;
+use combine::error::{ParseResult::*, Tracked};
 use combine::stream::easy::{Error, Errors, Info};
 use combine::{satisfy, ParseResult, Parser, StreamOnce};
 
@@ -30,6 +30,18 @@ pub struct Value<'a> {
     phantom: PhantomData<&'a u8>,
 }
 
+/// Like `combine::eof`, but tells what is wrong with a malformed token
+#[derive(Debug, Clone)]
+pub struct End<'a> {
+    phantom: PhantomData<&'a u8>,
+}
+
+pub fn end<'x>() -> End<'x> {
+    End {
+        phantom: PhantomData,
+    }
+}
+
 pub fn kind<'x>(kind: Kind) -> TokenMatch<'x> {
     TokenMatch {
         kind,
@@ -121,3 +133,25 @@ where
         error.error.add_error(Error::Expected(Info::Static("Name")));
     }
 }
+
+impl<'a> Parser<TokenStream<'a>> for End<'a> {
+    type Output = ();
+    type PartialState = ();
+
+    #[inline]
+    fn parse_lazy(
+        &mut self,
+        input: &mut TokenStream<'a>,
+    ) -> ParseResult<Self::Output, <TokenStream<'a> as StreamOnce>::Error> {
+        match satisfy(|_: Token<'a>| false).map(|_| ()).parse_lazy(input) {
+            PeekErr(ref e) if e.error.errors == [Error::end_of_input()] => PeekOk(()),
+            result => result,
+        }
+    }
+
+    fn add_error(&mut self, error: &mut Tracked<Errors<Token<'a>, Token<'a>, Pos>>) {
+        error
+            .error
+            .add_error(Error::Expected(Info::Static("end of input")));
+    }
+}
diff --git a/src/query/grammar.rs b/src/query/grammar.rs
index cf31bec..09752af 100644
--- a/src/query/grammar.rs
+++ b/src/query/grammar.rs
@@ -1,9 +1,9 @@
-use combine::{eof, many1, optional, position, StdParseResult};
+use combine::{many1, optional, position, StdParseResult};
 use combine::{parser, Parser};
 
 use crate::common::Directive;
 use crate::common::{arguments, default_value, directives, parse_type};
-use crate::helpers::{ident, name, punct};
+use crate::helpers::{end, ident, name, punct};
 use crate::query::ast::*;
 use crate::query::error::ParseError;
 use crate::tokenizer::TokenStream;
@@ -257,7 +257,7 @@ where
     let mut tokens = TokenStream::new(s);
     let (doc, _) = many1(parser(definition))
         .map(|d| Document { definitions: d })
-        .skip(eof())
+        .skip(end())
         .parse_stream(&mut tokens)
         .into_result()
         .map_err(|e| e.into_inner().error)?;
diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index b3d01dc..141543e 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -1,11 +1,11 @@
 use combine::easy::{Error, Errors};
 use combine::error::StreamError;
 use combine::sep_by1;
-use combine::{choice, eof, many, many1, optional, position};
+use combine::{choice, many, many1, optional, position};
 use combine::{parser, Parser, StdParseResult};
 
 use crate::common::{default_value, directives, parse_type, string, Text};
-use crate::helpers::{ident, kind, name, punct};
+use crate::helpers::{end, ident, kind, name, punct};
 use crate::schema::ast::*;
 use crate::schema::error::ParseError;
 use crate::tokenizer::{Kind as T, Token, TokenStream};
@@ -694,7 +694,7 @@ where
     let mut tokens = TokenStream::new(s);
     let (doc, _) = many1(parser(definition))
         .map(|d| Document { definitions: d })
-        .skip(eof())
+        .skip(end())
         .parse_stream(&mut tokens)
         .into_result()
         .map_err(|e| e.into_inner().error)?;
-- 
2.43.0

