From 94fc8d2ef89d1c2551e65ad9ed6cf9fa544be8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 01/62] fix: start tokens at their first byte after multi-byte
 characters

The position of the char reader is derived from UTF-16 lengths, so a token
following a multi-byte character started inside that character. Rewinding to
such a token panicked, and its span was wrong.
---
 common/src/io/char_reader.rs         |  9 +++++++++
 lexer/src/lib.rs                     |  8 ++++----
 lexer/src/number.rs                  | 10 +++++-----
 lexer/src/regexp.rs                  |  2 +-
 lexer/src/unicode_escape_sequence.rs |  4 ++--
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/common/src/io/char_reader.rs b/common/src/io/char_reader.rs
index 8251a25..bc64300 100644
--- a/common/src/io/char_reader.rs
+++ b/common/src/io/char_reader.rs
@@ -12,6 +12,15 @@ impl<I> PeekReader<char, I>
 where
     I: PeekRead<char, Error = Error>,
 {
+    /// Start position of the current character. This is not the same as the end position of the
+    /// previous character, since characters may be several bytes long.
+    pub fn current_start(&self) -> usize {
+        match &self.current {
+            Ok((end, c)) => end - c.len_utf16() + self.offset,
+            Err(_) => self.position,
+        }
+    }
+
     /// Read a string until `check` callback returns false or the end of the stream is reached.
     pub fn read_while<F>(&mut self, check: F) -> Result<String, I::Error>
     where
diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..09a5671 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -118,7 +118,7 @@ impl<'a> Lexer<'a> {
 
         let current = self.reader.current()?;
 
-        let start = self.reader.position();
+        let start = self.reader.current_start();
         let value = match current {
             '/' if self.state.regex_allowed => self.read_regexp_literal(),
             // <op>=
@@ -266,7 +266,7 @@ impl<'a> Lexer<'a> {
                 }
                 Ok('<') if self.reader.peek().ok() == Some(&'!') => {
                     if !self.state.html_comment_allowed {
-                        let position = self.reader.position();
+                        let position = self.reader.current_start();
                         return Err(Error::syntax_error(
                             "HTML comments are not allowed in this context".to_owned(),
                             (position, position + 2),
@@ -306,7 +306,7 @@ impl<'a> Lexer<'a> {
 
     /// Skips multi line comment, returns true if a new line was skipped.
     fn skip_multi_line_comment(&mut self) -> Result<()> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         self.reader.consume()?;
         self.reader.consume()?;
 
@@ -380,7 +380,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_template_literal_middle_or_tail(&mut self) -> Result<Token> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let start = self.reader.consume()?;
 
         if start != '}' {
diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..1b49bae 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -12,7 +12,7 @@ impl<'a> Lexer<'a> {
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
             Ok('0'..='9') if current == &'0' => {
-                let position = self.reader.position();
+                let position = self.reader.current_start();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
                     (position, position + 1),
@@ -38,7 +38,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_hex_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -51,7 +51,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_octal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -65,7 +65,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_binary_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
         number_string.push(self.reader.consume()?); // 0
@@ -79,7 +79,7 @@ impl<'a> Lexer<'a> {
     }
 
     fn read_decimal_string(&mut self) -> Result<String> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let mut number_string = String::new();
 
diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..3293939 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -6,7 +6,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl Lexer<'_> {
     pub(super) fn read_regexp_literal(&mut self) -> Result<TokenValue> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let mut result = String::new();
         let regexp_start = self.reader.consume()?;
         debug_assert_eq!(regexp_start, '/');
diff --git a/lexer/src/unicode_escape_sequence.rs b/lexer/src/unicode_escape_sequence.rs
index 1d630b0..d3f98b2 100644
--- a/lexer/src/unicode_escape_sequence.rs
+++ b/lexer/src/unicode_escape_sequence.rs
@@ -9,7 +9,7 @@ impl Lexer<'_> {
         &mut self,
         is_start: bool,
     ) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
         let char = self.read_unicode_escape_sequence()?;
         let valid = if is_start {
             char.is_start_of_identifier()
@@ -29,7 +29,7 @@ impl Lexer<'_> {
     }
 
     fn read_unicode_escape_sequence(&mut self) -> Result<char> {
-        let span_start = self.reader.position();
+        let span_start = self.reader.current_start();
 
         let slash = self.reader.consume()?;
         debug_assert_eq!(slash, '\\');
-- 
2.43.0


From 7f5fc77c48ca097a5765e6547bd40a0dd2e85919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 02/62] fix: only treat `<!--` as the start of an HTML comment

`<!` is the operator `<` followed by `!`, for example in `a<!b`.
---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 09a5671..78905cf 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.data[self.reader.current_start()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.current_start();
                         return Err(Error::syntax_error(
-- 
2.43.0


From 8a01b8e217593cea9fa285f95950cec4b6c99b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/62] fix: restore the lexer state when reading with another
 state fails

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 78905cf..34daa84 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -560,10 +560,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From bfc6c2b9b941d1f7b5e6c330e5d5d2ee2a8312e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 04/62] fix: no line terminator may be part of a regular
 expression literal

Only a line feed outside of a class and not preceded by a backslash was
rejected.
---
 lexer/src/regexp.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 3293939..4d77f88 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -14,22 +14,13 @@ impl Lexer<'_> {
         result.push(regexp_start);
 
         loop {
-            let c = self.reader.consume()?;
+            let c = self.consume_regexp_char(span_start)?;
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
-                }
                 '/' => break,
-                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
-                    result.push(self.reader.consume()?)
-                }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '\\' => result.push(self.consume_regexp_char(span_start)?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,19 +31,32 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
-            let c = self.reader.consume()?;
+            let c = self.consume_regexp_char(span_start)?;
             result.push(c);
 
             match c {
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' => result.push(self.consume_regexp_char(span_start)?),
                 _ => {}
             }
         }
 
         Ok(result)
     }
+
+    /// Consumes a character of a regular expression, which may not contain line terminators.
+    fn consume_regexp_char(&mut self, span_start: usize) -> Result<char> {
+        if self.reader.current()?.is_ecma_line_terminator() {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Unterminated regular expression literal".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
+        Ok(self.reader.consume()?)
+    }
 }
-- 
2.43.0


From 78a320664204a0317320cbdfa545baa1ce249411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 05/62] fix: reject numeric separators without a digit on both
 sides

`1._5`, `1e_5`, `0x_1` and `0_1` are not numeric literals.
---
 lexer/src/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index 1b49bae..1ba245a 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.current_start();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -141,6 +141,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.ends_with('_') {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 88fe2431cb6deccc258c469b6483bd8d996ef224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 06/62] fix: a numeric literal may not be directly followed by
 a digit

`0b12` was read as the two literals `0b1` and `2`.
---
 lexer/src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index 1ba245a..b473aad 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -25,7 +25,7 @@ impl<'a> Lexer<'a> {
             .reader
             .current()
             .ok()
-            .map_or(false, CodePoint::is_start_of_identifier)
+            .map_or(false, |c| c.is_start_of_identifier() || c.is_ascii_digit())
         {
             let position = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From ffab15bf91f471a846bfb039098c19c4bf9372fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 07/62] fix: allow the `in` operator wherever the grammar has
 the +In parameter

Initializers of `let` and `const` declarations, the object of `with`, computed
names, elements of literals, template substitutions, the consequent of a
conditional, import() arguments, computed members of optional chains and
initializers of shorthand assignment properties all allow `in`.
---
 parser/src/assignment_pattern.rs |  5 ++++-
 parser/src/expr.rs               |  8 ++++++--
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  6 ++----
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 7 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..3d44b13 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -188,7 +188,10 @@ where
         let ident = self.parse_identifier()?;
         let initializer = self
             .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+            .then_try(|| {
+                self.with_context(self.context.with_in(true))
+                    .parse_initializer()
+            })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..a2e4c32 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -289,7 +289,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -565,7 +567,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..e550b49 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..635704f 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -137,9 +137,7 @@ where
                 Ok(MemberProperty::Ident(identifier))
             }
             token_matches!(ok: punct!("[")) => {
-                let member = self
-                    .with_context(self.context.with_in(true))
-                    .parse_computed_property()?;
+                let member = self.parse_computed_property()?;
                 Ok(MemberProperty::Expr(member.into()))
             }
             _ => unreachable!(),
@@ -148,7 +146,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..b03a095 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -300,7 +300,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..e5e3973 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.maybe_consume(&punct!(";"))?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From d6bb450a0fb077d817f08a82e4f5daec3618c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 08/62] fix: require a semicolon where none can be inserted
 automatically

Variable, break, continue, return, throw and debugger statements could be
followed by anything on the same line, for example `var a b`.
---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index b03a095..70c1ead 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -188,7 +188,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -200,7 +200,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -220,7 +220,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -249,7 +249,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -264,7 +264,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index e5e3973..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -18,7 +18,7 @@ where
         let declarations = self
             .with_context(self.context.with_in(true))
             .parse_variable_declarations()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From 5ebd6c3a04e4790939de6a93880bcd38b4195da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 09/62] fix: reject an unparenthesized unary expression to the
 left of `**`

---
 parser/src/binary_expr.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index ab3bfa2..d6c0e37 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -136,13 +136,26 @@ where
 
     /// Parses the `ExponentiationExpression` production.
     fn parse_exponentiation_expr(&mut self) -> Result<Expr> {
-        self.parse_binary_expr(Self::parse_unary_expr, |token| {
-            if token_matches!(token, punct!("**")) {
-                Some(binary_op!("**"))
-            } else {
-                None
+        let span_start = self.position();
+        let mut expr = self.parse_unary_expr()?;
+        let mut operand_is_unary = matches!(expr, Expr::Unary(_) | Expr::Await(_));
+
+        // The left side is an `UpdateExpression`, other unary expressions must be parenthesized.
+        while !operand_is_unary && self.maybe_consume(&punct!("**"))? {
+            let right = self.parse_unary_expr()?;
+            operand_is_unary = matches!(right, Expr::Unary(_) | Expr::Await(_));
+
+            let span = self.span_from(span_start);
+            expr = ExprBinary {
+                span,
+                left: Box::new(expr),
+                right: Box::new(right),
+                operator: binary_op!("**"),
             }
-        })
+            .into();
+        }
+
+        Ok(expr)
     }
 
     /// All binary expressions are parsed the same way, they are broken up into multiple productions
-- 
2.43.0


From 324e793cc094b606e3471248cf0b6b751ffb48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 10/62] fix: reject `??` mixed with `&&` or `||` without
 parentheses

---
 parser/src/binary_expr.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index d6c0e37..5ec3f26 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -16,13 +16,27 @@ where
 {
     /// Parses the `ShortCircuitExpression` production.
     pub(super) fn parse_short_circuit_expr(&mut self) -> Result<Expr> {
-        self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
-            if token_matches!(token, punct!("??")) {
-                Some(logical_op!("??"))
-            } else {
-                None
+        let span_start = self.position();
+        let mut expr = self.parse_logical_or_expr()?;
+
+        // `??` cannot be mixed with `&&` and `||` without parentheses.
+        if matches!(expr, Expr::Logical(_)) {
+            return Ok(expr);
+        }
+
+        while self.maybe_consume(&punct!("??"))? {
+            let right = self.parse_bitwise_or_expr()?;
+            let span = self.span_from(span_start);
+            expr = ExprLogical {
+                span,
+                left: Box::new(expr),
+                right: Box::new(right),
+                operator: logical_op!("??"),
             }
-        })
+            .into();
+        }
+
+        Ok(expr)
     }
 
     /// Parses the `LogicalORExpression` production.
-- 
2.43.0


From f743cc2472baf2d43fbd06e6ca4bf971f70f2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 11/62] fix: allow async, get, set and static as shorthand
 properties

---
 parser/src/literal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index e550b49..ea0e9ff 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -267,6 +267,14 @@ where
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
+            // Shorthand property named by a contextual keyword, for example `{ get }`.
+            _ if token_matches!(
+                self.peek(),
+                opt: punct!(",") | punct!("}") | punct!("=")
+            ) =>
+            {
+                false
+            }
             token_matches!(ok: keyword!("static")) => true,
             token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
             token_matches!(ok: keyword!("get") | keyword!("set")) => true,
-- 
2.43.0


From fa4b3342b0a50d975608ffff4c5c2086bc323c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 12/62] fix: allow methods named async

---
 parser/src/method.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..1b8dc51 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.followed_by_new_line() && !self.peek_matches(&punct!("(")) =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 02230cc7cbd1ac729aafc0a6144ee422206791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 13/62] fix: plain methods and accessors do not inherit await
 and super() from their surroundings

---
 parser/src/literal.rs | 10 ++++++++--
 parser/src/method.rs  | 15 +++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index ea0e9ff..c42b910 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -243,8 +243,14 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
-                .map(PropertyDefinition::Method)
+            self.with_context(
+                self.context
+                    .with_await(false)
+                    .with_in_method(true)
+                    .with_super_call_allowed(false),
+            )
+            .parse_method(span_start, false, name, MethodKind::Method)
+            .map(PropertyDefinition::Method)
         }
     }
 
diff --git a/parser/src/method.rs b/parser/src/method.rs
index 1b8dc51..c51ede7 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -35,7 +35,8 @@ where
             _ => {
                 let span_start = self.position();
                 let name = self.parse_property_name()?;
-                self.parse_method(span_start, is_static, name, MethodKind::Method)
+                self.with_context(self.context.with_await(false))
+                    .parse_method(span_start, is_static, name, MethodKind::Method)
             }
         }
     }
@@ -46,8 +47,13 @@ where
         self.consume_assert(&punct!("*"))?;
 
         let name = self.parse_property_name()?;
-        self.with_context(self.context.with_yield(true).with_await(false))
-            .parse_method(span_start, is_static, name, MethodKind::Method)
+        self.with_context(
+            self.context
+                .with_yield(true)
+                .with_await(false)
+                .with_await(false),
+        )
+        .parse_method(span_start, is_static, name, MethodKind::Method)
     }
 
     fn parse_getter_or_setter(
@@ -59,7 +65,8 @@ where
         self.consume()?;
 
         let name = self.parse_property_name()?;
-        self.parse_method(span_start, is_static, name, kind)
+        self.with_context(self.context.with_await(false))
+            .parse_method(span_start, is_static, name, kind)
     }
 
     /// Parses the `AsyncMethod` and `AsyncGeneratorMethod` production.
-- 
2.43.0


From c226efc7daf35d96a09666806ed17e850e1568c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 14/62] fix: arrow functions inherit strict mode

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..6fa7e05 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -128,9 +128,10 @@ impl Context {
     modifier!(with_super_call_allowed: super_call_allowed);
     modifier!(with_static_method_allowed: static_method_allowed);
 
-    /// Resets all production parameters.
+    /// Resets all production parameters, strictness is inherited.
     fn reset_parameters(&self) -> Self {
         Context {
+            is_strict: self.is_strict,
             in_method: self.in_method,
             super_call_allowed: self.super_call_allowed,
             static_method_allowed: self.static_method_allowed,
-- 
2.43.0


From 113de8837af1c0e938bd7d818a46b5f90cede139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/62] fix: allow yield without argument before , and :

---
 parser/src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index a2e4c32..e764f27 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -827,5 +827,7 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
     }
 }
-- 
2.43.0


From 03213b274666936df509fbc9eac24eb5f769ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 16/62] fix: module code is strict mode code

---
 parser/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 6fa7e05..54e4771 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -171,7 +171,7 @@ impl Parse for Expr {
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
         parser
-            .with_context(Context::default().with_in(true))
+            .with_context(parser.context.with_in(true))
             .parse_expr()
     }
 }
@@ -195,7 +195,7 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let strict_mode = parser.context.is_strict || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
@@ -232,7 +232,8 @@ where
 {
     pub fn new(reader: &'a mut PeekReader<Token, I>, source_type: SourceType) -> Result<Self> {
         Ok(Parser {
-            context: Context::default(),
+            // Module code is always strict mode code.
+            context: Context::default().with_strict(source_type == SourceType::Module),
             reader,
             source_type,
         })
-- 
2.43.0


From a1ba90468f8bc833b12f2b3a15f8bf05b4a2a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 17/62] fix: await is a reserved word in modules

---
 parser/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 54e4771..f3d10a7 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -360,14 +360,25 @@ where
         self.current().map_or(false, |t| t.first_on_line)
     }
 
+    /// Returns the context that decides which keywords are allowed as identifiers.
+    fn keyword_context(&self) -> KeywordContext {
+        let mut keyword_context = self.context.keyword_context();
+        if self.source_type == SourceType::Module {
+            // `await` is reserved in the entire module.
+            keyword_context |= KeywordContext::AWAIT;
+        }
+
+        keyword_context
+    }
+
     /// Returns `true` if next token could be parsed to a valid identifier.
     fn peek_is_identifier(&self) -> bool {
-        is_identifier(self.peek(), self.context.keyword_context())
+        is_identifier(self.peek(), self.keyword_context())
     }
 
     /// Returns `true` if current token could be parsed to a valid identifier.
     fn is_identifier(&self) -> bool {
-        is_identifier(self.current().ok(), self.context.keyword_context())
+        is_identifier(self.current().ok(), self.keyword_context())
     }
 
     /// Returns `true` if current token could be parsed to a valid identifier name.
@@ -388,7 +399,7 @@ where
         Ok(match token.value {
             TokenValue::Identifier(s) => Ident::new(s, token.span),
             TokenValue::Keyword(keyword) => {
-                if keyword.is_allowed_as_identifier(self.context.keyword_context()) {
+                if keyword.is_allowed_as_identifier(self.keyword_context()) {
                     Ident::new(keyword.to_string(), token.span)
                 } else {
                     return Err(Error::forbidden_identifier(keyword.to_string(), token.span));
-- 
2.43.0


From a9d86e6740a8368d62becc3515b95cf341933879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 18/62] fix: allow template with substitutions as tagged
 template after a call

---
 parser/src/expr.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index e764f27..2c3f74c 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -499,9 +499,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From a3b7296df975d3bf118ee82eb8b6afd2cca1b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 19/62] fix: super() and import() may be followed by further
 call expression parts

---
 parser/src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 2c3f74c..823fdd7 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -464,13 +464,9 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
-            _ => {
-                let span_start = self.position();
-                let expr = self.parse_new_or_member_expr()?;
-                let call_expr = self.parse_recursive_call_expression(span_start, expr)?;
-                Ok(call_expr)
-            }
+            _ => self.parse_new_or_member_expr(),
         }?;
+        let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
             // The NewExpression production handles nested news and is not included in the
-- 
2.43.0


From 5309e45049ecff036eb7b71f711143881a3b56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 20/62] fix: statements may start with import() and import.meta

---
 parser/src/stmt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 70c1ead..35a7ee8 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -76,7 +76,7 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            token_matches!(keyword!("import")) if !self.is_import_expr() => {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
@@ -106,6 +106,12 @@ where
         })
     }
 
+    /// Check if the `import` keyword at current position starts an `ImportCall` or `ImportMeta`.
+    fn is_import_expr(&self) -> bool {
+        self.peek_matches(&punct!("("))
+            || self.source_type == SourceType::Module && self.peek_matches(&punct!("."))
+    }
+
     /// Check if current position matches the start of an expression statement as specified in the
     /// `ExpressionStatement` production.
     fn is_expr_stmt(&self) -> Result<bool> {
-- 
2.43.0


From e29a9d9302dd0c7e2e2089aca8bd340c371db8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 21/62] fix: only new without arguments may not start an
 optional chain

---
 parser/src/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 823fdd7..fde1632 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -469,9 +469,9 @@ where
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
-            // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            // The NewExpression production handles news without arguments and is not included in
+            // the OptionalExpression production as a base for the chain.
+            if matches!(&expr, Expr::New(new) if new.arguments_span.is_none()) {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From efd9d8c3fc0192d094c701d07d9f9865b0f3c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 22/62] fix: allow reserved words as property names in optional
 chains

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 635704f..3257e00 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From dd52e02e97c5d174d398289bfdf64e9ae4c40731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 23/62] fix: parse async as an identifier wherever it does not
 start an async function

---
 parser/src/cover.rs  | 18 ++++++++++++++----
 parser/src/expr.rs   | 28 +++++++++++-----------------
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 4 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..cc2dfe8 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -46,15 +46,25 @@ where
     }
 
     /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// If an arrow function is parsed, it is returned as an error because it is only valid
+    /// higher up in the tree. The error must be caught higher up.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
+        let arrow_function_allowed = !self.followed_by_new_line();
+
         match self.parse_covered_call_expression() {
-            Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
-            Ok(_) => {
+            Ok(expr) if !arrow_function_allowed || !self.current_matches(&punct!("=>")) => Ok(expr),
+            Err(error)
+                if !arrow_function_allowed || error.kind() != &InitializedNameNotAllowed =>
+            {
+                Err(error)
+            }
+            _ => {
                 self.reader.rewind_to(&start_token)?;
-                self.parse_async_arrow_function_expr()
+                Err(Error::arrow_function_not_allowed(
+                    self.parse_async_arrow_function_expr()?,
+                ))
             }
-            error => error,
         }
     }
 
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index fde1632..939db40 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,7 +59,11 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
+            token_matches!(ok: keyword!("async"))
+                if self.peek_is_identifier() && !self.followed_by_new_line() =>
+            {
+                self.parse_async_arrow_function_expr()
+            }
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
@@ -181,21 +185,6 @@ where
         }
     }
 
-    /// Parses the part of `AssignmentExpression` that starts with the `async` keyword.
-    /// Examples:
-    /// 1. `async => {}` // Non async arrow function with the name async.
-    /// 2. `async a => {}` // Async arrow function without parameter parentheses.
-    /// 3. `async(a) => {}` // Async arrow function with parentheses.
-    /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
-    fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
-        match self.peek() {
-            token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
-            _ => self.parse_conditional_expr(),
-        }
-    }
-
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
@@ -464,6 +453,9 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
+            token_matches!(ok: keyword!("async")) if self.peek_matches(&punct!("(")) => {
+                self.parse_cover_call_or_async_arrow_head()
+            }
             _ => self.parse_new_or_member_expr(),
         }?;
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
@@ -760,7 +752,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..eb1454c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 35a7ee8..a475547 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From ce0be87fd51cd1115290360255507d0085a281ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 24/62] fix: for (async of ...) is not a for-of statement

---
 parser/src/iteration.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..a47e8a0 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -126,6 +126,15 @@ where
     /// Parses the `ForInOfStatement` production.
     /// Expects `for (` to already have been consumed.
     fn parse_for_in_of(&mut self, span_start: usize, asynchronous: bool) -> Result<Stmt> {
+        // `for (async of` may only be the start of `for (async of => {};;)`.
+        if !asynchronous
+            && self.current_matches(&keyword!("async"))
+            && self.peek_matches(&keyword!("of"))
+        {
+            self.consume()?;
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         let declaration = self.parse_for_declaration()?;
 
         match self.current()? {
-- 
2.43.0


From 42d9dd6ad699b60e511733ecb3fe323b05fc854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 25/62] fix: the right side of for-of is a single assignment
 expression

---
 parser/src/iteration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index a47e8a0..1692619 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -182,7 +182,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From 11752aaeb7484add2f72282cea3d71d901d825ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 26/62] fix: allow a trailing comma in arrow function
 parameters

---
 parser/src/cover.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index cc2dfe8..838e2f2 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -40,6 +40,14 @@ where
                         self.parse_arrow_function_expr()?,
                     ))
                 }
+                // May be the trailing comma of arrow parameters, for example `(a,) => a`.
+                &UnexpectedToken(punct!(")"), _) => {
+                    self.reader.rewind_to(&start_token)?;
+                    match self.parse_arrow_function_expr() {
+                        Ok(expr) => Err(Error::arrow_function_not_allowed(expr)),
+                        Err(_) => Err(error),
+                    }
+                }
                 _ => Err(error),
             },
         }
-- 
2.43.0


From 5e4dd01894594428d0616d7a3743a48d721bd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 27/62] fix: report an error when a module specifier is not a
 string

---
 parser/src/module.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index eb1454c..2f1eee5 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -2,11 +2,11 @@ use crate::error::Result;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
     DeclExport, DeclImport, ExportDecl, ExportDefaultDecl, ExportDefaultExpr, ExportNamed,
-    ExportNamespace, Ident, LitString, NamedExport, NamedImport, Stmt, VariableKind,
+    ExportNamespace, Ident, LitString, Literal, NamedExport, NamedImport, Stmt, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::Token;
+use fajt_lexer::token::{Token, TokenValue};
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -206,12 +206,11 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
-        let module_name = self
-            .parse_literal()?
-            .unwrap_literal()
-            .literal
-            .unwrap_string();
-        Ok(module_name)
+        let token = self.consume()?;
+        match token.value {
+            TokenValue::Literal(Literal::String(module_name)) => Ok(module_name),
+            _ => Err(Error::unexpected_token(token)),
+        }
     }
 
     /// Parses the `NameSpaceImport` production.
-- 
2.43.0


From 7b5a762bedafe1790037caa34720ca00f687fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 28/62] fix: only the exported declaration of export default
 may lack a name

---
 parser/src/class.rs    | 9 +++++++--
 parser/src/function.rs | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..f544e6e 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -4,6 +4,7 @@ use fajt_ast::{ClassElement, DeclClass, Expr, ExprClass, Ident, Stmt};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
 use fajt_lexer::token::Token;
+use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
 impl<I> Parser<'_, I>
@@ -17,7 +18,9 @@ where
         self.consume_assert(&keyword!("class"))?;
 
         let identifier = self.parse_optional_class_identifier()?;
-        let (super_class, body) = self.parse_class_tail()?;
+        let (super_class, body) = self
+            .with_context(self.context.with_default(false))
+            .parse_class_tail()?;
 
         let span = self.span_from(span_start);
         Ok(DeclClass {
@@ -31,7 +34,9 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        if self.context.is_default
+            && token_matches!(self.current(), ok: punct!("{") | keyword!("extends"))
+        {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..73f3a3e 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -166,6 +166,7 @@ where
 
         self.with_context(
             self.context
+                .with_default(false)
                 .with_yield(generator)
                 .with_await(false)
                 .with_in_method(false)
@@ -187,6 +188,7 @@ where
 
         self.with_context(
             self.context
+                .with_default(false)
                 .with_yield(generator)
                 .with_await(true)
                 .with_in_method(false)
-- 
2.43.0


From df610b0cf1d364987972d21e4feae27d5e45ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 29/62] fix: import and export declarations are only allowed at
 the top level

---
 parser/src/lib.rs  |  2 +-
 parser/src/stmt.rs | 47 +++++++++++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index f3d10a7..70c1057 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -182,7 +182,7 @@ impl Parse for Stmt {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
-        parser.parse_declaration_or_statement()
+        parser.parse_top_level_item()
     }
 }
 
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index a475547..3a6af05 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -24,12 +24,39 @@ where
                 break;
             }
 
-            stmts.push(self.parse_declaration_or_statement()?);
+            stmts.push(self.parse_top_level_item()?);
         }
 
         Ok(stmts)
     }
 
+    /// Parses the `ModuleItem` or `StatementListItem` production of the top level.
+    pub(super) fn parse_top_level_item(&mut self) -> Result<Stmt> {
+        if self.source_type == SourceType::Module {
+            match self.current()? {
+                token_matches!(keyword!("import")) if !self.is_import_expr() => {
+                    return self.parse_import_declaration();
+                }
+                token_matches!(keyword!("export")) => return self.parse_export_declaration(),
+                _ => {}
+            }
+        }
+
+        self.parse_declaration_or_statement()
+    }
+
+    fn module_item_not_allowed(&self, keyword: &str) -> Error {
+        let message = match self.source_type {
+            SourceType::Script => format!("Cannot use `{keyword}` statement outside a module"),
+            _ => format!("`{keyword}` statement is only allowed at the top level of a module"),
+        };
+
+        match self.current() {
+            Ok(token) => Error::syntax_error(message, token.span.clone()),
+            Err(error) => error,
+        }
+    }
+
     pub(super) fn parse_declaration_or_statement(&mut self) -> Result<Stmt> {
         let decl = self.parse_declaration()?;
         if let Some(decl) = decl {
@@ -79,24 +106,10 @@ where
                     .parse_class_decl()?,
             ),
             token_matches!(keyword!("import")) if !self.is_import_expr() => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `import` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_import_declaration()?)
+                return Err(self.module_item_not_allowed("import"));
             }
             token_matches!(keyword!("export")) => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `export` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_export_declaration()?)
+                return Err(self.module_item_not_allowed("export"));
             }
             token_matches!(keyword!("const")) => {
                 Some(self.parse_variable_stmt(VariableKind::Const)?)
-- 
2.43.0


From f864f968e9ef8643b08a53d21d9572672d0df889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 30/62] fix: report the unexpected token after export when it
 does not start a declaration

---
 parser/src/module.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 2f1eee5..6b86086 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -103,8 +103,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
-            Err(Error::syntax_error("Expected statement".to_owned(), span))
+            Err(Error::unexpected_token(self.consume()?))
         }
     }
 
-- 
2.43.0


From fb694db6453bd7880c764679b058480e2d863471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 31/62] fix: an import specifier without alias must be a valid
 binding identifier

---
 parser/src/module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 6b86086..2b19668 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -240,10 +240,17 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
+        let is_binding = self.is_identifier();
         let name = self.parse_identifier_name()?;
         let alias = self
             .maybe_consume(&keyword!("as"))?
             .then_try(|| self.parse_identifier())?;
+
+        // Without alias the imported name is also the name of the binding.
+        if alias.is_none() && !is_binding {
+            return Err(Error::forbidden_identifier(name.name, name.span));
+        }
+
         let span = self.span_from(span_start);
         Ok(NamedImport { span, name, alias })
     }
-- 
2.43.0


From 5ac9299b101bad8c5fea2d45e91365ede3083ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 32/62] fix: do not panic on diagnostics of long lines

---
 parser/src/error/emitter.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..bab8770 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -70,14 +70,12 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         )?;
         writeln!(
             self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+            "{:<pad$}| {}{} {}",
             "",
-            "",
-            "^",
+            " ".repeat(err_span.start + tab_indents * 3),
+            "^".repeat(err_token_length.max(1)),
             label,
             pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
-            err_mark = err_token_length
         )?;
 
         Ok(())
-- 
2.43.0


From 6d0f1cf0be1b8b70770c886637595ef1bd4f6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 33/62] fix: do not panic on diagnostics that end inside a
 multi-byte character

---
 parser/src/error/emitter.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index bab8770..d6e83f5 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -19,7 +19,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
+        let span = &self.get_char_boundaries(&error.span);
         let line_span = self.get_line_boundaries(span);
         let col_number = span.start - line_span.start + 1;
         let line_number = self.get_line_number(span);
@@ -54,7 +54,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
+        let err_span = self
+            .get_char_boundaries(&error.span)
+            .translate(-(line_span.start as isize));
         let err_token_length = err_span.end - err_span.start;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
@@ -81,6 +83,20 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         Ok(())
     }
 
+    /// Returns `span` extended to the closest character boundaries in the source.
+    fn get_char_boundaries(&self, span: &Span) -> Span {
+        let mut span = span.clone();
+        while !self.source.is_char_boundary(span.start) {
+            span.start -= 1;
+        }
+
+        while span.end < self.source.len() && !self.source.is_char_boundary(span.end) {
+            span.end += 1;
+        }
+
+        span
+    }
+
     fn get_line_number(&self, span: &Span) -> usize {
         self.source[..span.end].matches('\n').count() + 1
     }
@@ -105,7 +121,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let span = self.get_char_boundaries(&error.span);
+                let token_value = &self.source[span.start..span.end];
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
-- 
2.43.0


From 8eed83f9189eeff923e3a61ddb951a6805872005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 34/62] fix: report the line where the erroneous code starts

---
 parser/src/error/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index d6e83f5..8cb6db9 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -98,7 +98,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     fn get_line_boundaries(&self, span: &Span) -> Span {
-- 
2.43.0


From 65472177ca3dad54631e751d53d6e9adc7d0252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 35/62] fix: traverse the alternate of conditional expressions

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From f1edb0028eee2ccd316bc3f9a520ee24213b6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 36/62] fix: traverse the parts of import declarations once

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From 84416ad27f0f03062d8d2265ee738de63c662b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 37/62] fix: traverse named exports in source order

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..027862c 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -518,8 +518,8 @@ generate_fold_and_visit! {
         }
 
         NamedExport: (enter: enter_named_export, exit: exit_named_export) {
-            name
             alias_of
+            name
         }
 
         NamedImport: (enter: enter_named_import, exit: exit_named_import) {
-- 
2.43.0


From bdd203f7136cc0612b9015ff8445235631ca4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 38/62] fix: traverse and print the bindings of for-in and
 for-of declarations

---
 ast/src/traverse/mod.rs | 4 +++-
 codegen/src/lib.rs      | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 027862c..458b6f2 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..ec80b0b 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -565,6 +565,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            s.space();
             s.string("of");
             s.space();
 
@@ -583,6 +584,13 @@ impl Visitor for CodeGenerator<'_> {
         }
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        node.binding.traverse(self);
+        false
+    }
+
     fn enter_for_in_stmt(&mut self, node: &mut StmtForIn) -> bool {
         self.string("for");
         self.space();
@@ -590,6 +598,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            s.space();
             s.string("in");
             s.space();
 
-- 
2.43.0


From 12f9a86ba68cefea136510ea20d7d67f83d826c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 39/62] fix: traverse assignment patterns

---
 ast/src/traverse/mod.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 458b6f2..8ea63ea 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -454,6 +460,32 @@ generate_fold_and_visit! {
             rest
         }
 
+        ArrayAssignmentPattern: (enter: enter_array_assignment_pattern, exit: exit_array_assignment_pattern) {
+            elements
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        ObjectAssignmentPattern: (enter: enter_object_assignment_pattern, exit: exit_object_assignment_pattern) {
+            props
+            rest
+        }
+
+        SingleNameAssignmentProp: (enter: enter_single_name_assignment_prop, exit: exit_single_name_assignment_prop) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (enter: enter_named_assignment_prop, exit: exit_named_assignment_prop) {
+            name
+            value
+            initializer
+        }
+
         ObjectBinding: (enter: enter_object_binding, exit: exit_object_binding) {
             props
             rest
-- 
2.43.0


From 210214b3afe9ec35eab58cb502d0cb297c77a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 40/62] fix: print a space between keywords and identifiers
 that start with $ or _

---
 codegen/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index ec80b0b..9d4aa97 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -381,13 +381,15 @@ impl CodeGenerator<'_> {
 
     /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
+        let is_identifier_part =
+            |ch: char| ch.is_alphanumeric() || ch == '$' || ch == '_' || !ch.is_ascii();
+        let last_is_identifier_part = self.last().map(is_identifier_part).unwrap_or(false);
+        let first_is_identifier_part = str
             .chars()
             .next()
-            .map(char::is_alphanumeric)
+            .map(is_identifier_part)
             .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        last_is_identifier_part && first_is_identifier_part
     }
 }
 
-- 
2.43.0


From 692355c5f867c5ab2a5e987081d2ccf9b66eb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 41/62] fix: do not merge operators in generated code

---
 codegen/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 9d4aa97..7ef28da 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -379,8 +379,18 @@ impl CodeGenerator<'_> {
         self.data.push_str(&" ".repeat(self.ctx.indentation()));
     }
 
-    /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
+    /// Check if a space must be added before adding str to avoid merging keywords or identifiers,
+    /// or operators into other operators or comments.
     fn must_add_space_before(&self, str: &str) -> bool {
+        if let (Some(last), Some(first)) = (self.last(), str.chars().next()) {
+            if matches!(
+                (last, first),
+                ('+', '+') | ('-', '-') | ('/', '/') | ('<', '!')
+            ) {
+                return true;
+            }
+        }
+
         let is_identifier_part =
             |ch: char| ch.is_alphanumeric() || ch == '$' || ch == '_' || !ch.is_ascii();
         let last_is_identifier_part = self.last().map(is_identifier_part).unwrap_or(false);
-- 
2.43.0


From c098c111eb7c7d6823c3c28420dda4fa65ca6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 42/62] fix: terminate generated throw and export * with a
 semicolon

---
 codegen/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 7ef28da..96395d8 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -475,6 +475,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.char(';');
         false
     }
 
@@ -923,6 +924,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.char(';');
         false
     }
 
-- 
2.43.0


From 7d61c55788afff1dacc79f6cc6e0af5ac03712e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 43/62] fix: never generate accessors with a generator star

---
 codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 96395d8..1fe9aac 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -836,7 +836,7 @@ impl Visitor for CodeGenerator<'_> {
             self.space();
         }
 
-        if node.generator {
+        if node.generator && matches!(node.kind, MethodKind::Method) {
             self.char('*');
         }
 
-- 
2.43.0


From f46332545f0f34be28c29a96cf0d8341e7b16845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 44/62] fix: generate the right number of commas for elisions

---
 codegen/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 1fe9aac..beefd83 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1120,7 +1120,7 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
+                if matches!(node.elements.last(), Some(Some(_))) {
                     s.char(',');
                     s.space();
                 }
@@ -1212,6 +1212,11 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            // The comma of a trailing elision, without it there would be no element.
+            if matches!(node.elements.last(), Some(ArrayElement::Elision)) {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From fa0f579a05fa08a88290a6c1d5b53b49ec14ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 45/62] fix: escape strings and templates in generated code

---
 codegen/src/lib.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index beefd83..dc64e29 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -207,7 +207,18 @@ impl<'a> CodeGenerator<'a> {
     #[inline]
     fn quote(&mut self, delimiter: char, string: &str) {
         self.char(delimiter);
-        self.string(string);
+
+        let mut previous = None;
+        for ch in string.chars() {
+            // A `\r\n` sequence is a single line continuation.
+            let is_line_terminator = ch == '\r' || (ch == '\n' && previous != Some('\r'));
+            if ch == delimiter || ch == '\\' || is_line_terminator {
+                self.data.push('\\');
+            }
+            self.data.push(ch);
+            previous = Some(ch);
+        }
+
         self.char(delimiter);
     }
 
@@ -1232,10 +1243,16 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.string(str);
+                let mut chars = str.chars().peekable();
+                while let Some(ch) = chars.next() {
+                    if ch == '`' || ch == '\\' || (ch == '$' && chars.peek() == Some(&'{')) {
+                        self.data.push('\\');
+                    }
+                    self.data.push(ch);
+                }
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                self.data.push_str("${");
                 expr.traverse(self);
                 self.char('}');
             }
-- 
2.43.0


From 7d81195cadd969c098b982c5ce6f486b112923a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 46/62] fix: separate numbers and regular expressions from what
 follows in generated code

---
 codegen/src/lib.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index dc64e29..dc295c2 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,7 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    last_numeric_or_regexp_end: Cell<usize>,
 }
 
 impl Index {
@@ -53,6 +54,7 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            last_numeric_or_regexp_end: Cell::new(0),
         }
     }
 
@@ -71,6 +73,14 @@ impl Index {
     fn set_block_start(&self, pos: usize) {
         self.last_block_start.replace(pos);
     }
+
+    fn last_numeric_or_regexp_end(&self) -> usize {
+        self.last_numeric_or_regexp_end.get()
+    }
+
+    fn set_numeric_or_regexp_end(&self, pos: usize) {
+        self.last_numeric_or_regexp_end.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -363,6 +373,12 @@ impl CodeGenerator<'_> {
         self.index.last_block_start() == self.pos()
     }
 
+    /// Numbers like `1.` and regular expressions without flags does not end with an identifier
+    /// part, but can still not be followed by one.
+    fn at_numeric_or_regexp_end(&self) -> bool {
+        self.pos() != 0 && self.index.last_numeric_or_regexp_end() == self.pos()
+    }
+
     /// Separation between logical sections, only adds a new line if not first in block or file.
     fn separation(&mut self) {
         if self.skip_next_separation {
@@ -410,7 +426,7 @@ impl CodeGenerator<'_> {
             .next()
             .map(is_identifier_part)
             .unwrap_or(false);
-        last_is_identifier_part && first_is_identifier_part
+        (last_is_identifier_part || self.at_numeric_or_regexp_end()) && first_is_identifier_part
     }
 }
 
@@ -773,6 +789,10 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_member_property(&mut self, node: &mut MemberProperty) -> bool {
         match node {
             MemberProperty::Ident(i) => {
+                if self.at_numeric_or_regexp_end() {
+                    // The dot would otherwise be part of the number.
+                    self.char(' ');
+                }
                 self.char('.');
                 i.traverse(self)
             }
@@ -1200,7 +1220,10 @@ impl Visitor for CodeGenerator<'_> {
             Literal::Null => self.string("null"),
             Literal::Boolean(true) => self.string("true"),
             Literal::Boolean(false) => self.string("false"),
-            Literal::Regexp(str) => self.string(str),
+            Literal::Regexp(str) => {
+                self.string(str);
+                self.index.set_numeric_or_regexp_end(self.pos());
+            }
             _ => return true,
         }
 
@@ -1337,6 +1360,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+        self.index.set_numeric_or_regexp_end(self.pos());
         false
     }
 
-- 
2.43.0


From 5c37482f1359091b91dde904118898992b952e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 47/62] fix: never remove the semicolon of an empty statement

---
 codegen/src/lib.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index dc295c2..ea4a98c 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -47,6 +47,7 @@ struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
     last_numeric_or_regexp_end: Cell<usize>,
+    last_empty_stmt_end: Cell<usize>,
 }
 
 impl Index {
@@ -55,6 +56,7 @@ impl Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
             last_numeric_or_regexp_end: Cell::new(0),
+            last_empty_stmt_end: Cell::new(0),
         }
     }
 
@@ -81,6 +83,14 @@ impl Index {
     fn set_numeric_or_regexp_end(&self, pos: usize) {
         self.last_numeric_or_regexp_end.replace(pos);
     }
+
+    fn last_empty_stmt_end(&self) -> usize {
+        self.last_empty_stmt_end.get()
+    }
+
+    fn set_empty_stmt_end(&self, pos: usize) {
+        self.last_empty_stmt_end.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -361,7 +371,7 @@ impl CodeGenerator<'_> {
             }
         }
 
-        if self.ctx.minified {
+        if self.ctx.minified && !self.at_empty_stmt_end() {
             // No ';' is necessary before a '}'.
             self.remove_last(';');
         }
@@ -379,6 +389,12 @@ impl CodeGenerator<'_> {
         self.pos() != 0 && self.index.last_numeric_or_regexp_end() == self.pos()
     }
 
+    /// The semicolon of an empty statement can not be removed, it can be the body of another
+    /// statement.
+    fn at_empty_stmt_end(&self) -> bool {
+        self.index.last_empty_stmt_end() == self.pos()
+    }
+
     /// Separation between logical sections, only adds a new line if not first in block or file.
     fn separation(&mut self) {
         if self.skip_next_separation {
@@ -432,10 +448,8 @@ impl CodeGenerator<'_> {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
-            // Don't remove semi colon if that render the last char a ')' since that could
-            // result in invalid code like `for(true)`, `if(true)`, ...
-            self.char(';');
+        if self.ctx.minified && !self.at_empty_stmt_end() {
+            self.remove_last(';');
         }
     }
 
@@ -1076,6 +1090,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_empty_statement(&mut self, _node: &mut StmtEmpty) -> bool {
         self.char(';');
+        self.index.set_empty_stmt_end(self.pos());
         false
     }
 
-- 
2.43.0


From e55a7f56f10162a1d1933d24b87d8f778a47b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 48/62] fix: generate assignment patterns

---
 codegen/src/lib.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index ea4a98c..3c85b62 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1186,6 +1186,53 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        // The elements contains an empty element for each comma.
+        self.parenthesize('[', false, |s| {
+            for element in node.elements.iter_mut() {
+                match element {
+                    Some(element) => element.traverse(s),
+                    None => s.char(','),
+                }
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_single_name_binding(&mut self, node: &mut SingleNameBinding) -> bool {
         node.ident.traverse(self);
         self.initializer(&mut node.initializer);
-- 
2.43.0


From df37d9e3442f4b0dcc5bfa866de49bc72dafc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 49/62] fix: a token after a template is not first on its line

Rewinding to the brace that ends a substitution restored that the brace is
first on its line, and reading the rest of the template left it that way for
the token that follows.
---
 lexer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 34daa84..2df4f86 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -398,6 +398,8 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
+        self.first_on_line = false;
+
         let span = Span::new(span_start, self.reader.position());
         Ok(Token {
             span,
-- 
2.43.0


From aa07b3c9746ddd7aa61462727fce84b108bde9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 50/62] fix: terminate generated do-while statements with a
 semicolon

---
 codegen/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 3c85b62..b1768fc 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -688,6 +688,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.test.traverse(s);
         });
+        self.char(';');
 
         false
     }
-- 
2.43.0


From 921306b55cc9b4fafbacd4518083ab9465d5a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 51/62] fix: reject numbers directly followed by an escape
 sequence

---
 lexer/src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index b473aad..120539a 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -25,7 +25,7 @@ impl<'a> Lexer<'a> {
             .reader
             .current()
             .ok()
-            .map_or(false, |c| c.is_start_of_identifier() || c.is_ascii_digit())
+            .map_or(false, |c| c.is_start_of_identifier() || c.is_ascii_digit() || c == &'\\')
         {
             let position = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 252148d6584fb01f38eeec205a5b0dc7f6753962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 52/62] fix: place the markers of diagnostics by characters and
 within the first line

---
 parser/src/error/emitter.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 8cb6db9..ee8e479 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -21,7 +21,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
         let span = &self.get_char_boundaries(&error.span);
         let line_span = self.get_line_boundaries(span);
-        let col_number = span.start - line_span.start + 1;
+        let col_number = self.source[line_span.start..span.start].chars().count() + 1;
         let line_number = self.get_line_number(span);
 
         writeln!(self.out, "{}", error)?;
@@ -57,25 +57,27 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let err_span = self
             .get_char_boundaries(&error.span)
             .translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
 
         let line = &self.source[line_span.start..line_span.end];
-        let tab_indents = &line[0..err_span.start].matches('\t').count();
+        // Errors of several lines are marked until the end of the first line.
+        let err_end = err_span.end.min(line.len()).max(err_span.start);
+        let indent = expand_tabs(&line[..err_span.start]).chars().count();
+        let err_length = expand_tabs(&line[err_span.start..err_end]).chars().count();
         writeln!(
             self.out,
             "{:<pad$}| {}",
             line_number_str,
-            line.replace('\t', "    "),
+            expand_tabs(line),
             pad = padding
         )?;
         writeln!(
             self.out,
             "{:<pad$}| {}{} {}",
             "",
-            " ".repeat(err_span.start + tab_indents * 3),
-            "^".repeat(err_token_length.max(1)),
+            " ".repeat(indent),
+            "^".repeat(err_length.max(1)),
             label,
             pad = padding,
         )?;
@@ -106,9 +108,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             .rfind('\n')
             .map(|pos| pos + 1)
             .unwrap_or(0);
-        let end = self.source[span.end..]
+        let end = self.source[span.start..]
             .find('\n')
-            .map(|pos| pos + span.end)
+            .map(|pos| pos + span.start)
             .unwrap_or(self.source.len());
 
         Span::new(start, end)
@@ -136,3 +138,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         }
     }
 }
+
+fn expand_tabs(text: &str) -> String {
+    text.replace('\t', "    ")
+}
-- 
2.43.0


From 3058797a7c7f52d3abdcd281524c7e93da9c76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 53/62] fix: --format takes one value, pretty or minified

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57a349d..a180d3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,7 @@ fn get_arguments() -> Arguments {
                 .long("format")
                 .short('f')
                 .value_name("format")
-                .value_names(["pretty", "minified"]),
+                .value_parser(["pretty", "minified"]),
         )
         .arg(Arg::new("check").long("check").short('c').num_args(0))
         .get_matches();
-- 
2.43.0


From 03fdab25f2062623a9bda5f57f2b4008c15c65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 54/62] fix: eval and arguments are no shorthand targets of
 assignment patterns in strict mode

---
 parser/src/assignment_pattern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 3d44b13..4db6dc9 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -6,7 +6,7 @@ use crate::ThenTry;
 use fajt_ast::PatternOrExpr;
 use fajt_ast::{
     ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp,
-    NamedAssignmentProp, ObjectAssignmentPattern, SingleNameAssignmentProp, Spanned,
+    Expr, NamedAssignmentProp, ObjectAssignmentPattern, SingleNameAssignmentProp, Spanned,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
@@ -186,6 +186,8 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
+        Expr::IdentRef(ident.clone()).early_errors_left_hand_side_expr(&self.context)?;
+
         let initializer = self
             .current_matches(&punct!("="))
             .then_try(|| {
-- 
2.43.0


From 18bd9144ddae97d1c8928be73536a9a675070946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 55/62] fix: super.x in the computed name of a method needs a
 method around it

---
 parser/src/class.rs   | 1 -
 parser/src/literal.rs | 2 --
 parser/src/method.rs  | 5 +++--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index f544e6e..5615475 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -103,7 +103,6 @@ where
             has_super && self.current_matches_identifier_or_literal("constructor");
         let context = self
             .context
-            .with_in_method(true)
             .with_static_method_allowed(true)
             .with_super_call_allowed(super_call_allowed);
 
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index c42b910..4f1e9fc 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -222,7 +222,6 @@ where
                 let method = self
                     .with_context(
                         self.context
-                            .with_in_method(true)
                             .with_static_method_allowed(false)
                             .with_super_call_allowed(false),
                     )
@@ -246,7 +245,6 @@ where
             self.with_context(
                 self.context
                     .with_await(false)
-                    .with_in_method(true)
                     .with_super_call_allowed(false),
             )
             .parse_method(span_start, false, name, MethodKind::Method)
diff --git a/parser/src/method.rs b/parser/src/method.rs
index c51ede7..00e10e2 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -87,10 +87,11 @@ where
         name: PropertyName,
         kind: MethodKind,
     ) -> Result<MethodDefinition> {
+        let context = self.context.with_in_method(true);
         let parameters = self
-            .with_context(self.context.with_yield(false))
+            .with_context(context.with_yield(false))
             .parse_formal_parameters()?;
-        let body = self.parse_function_body()?;
+        let body = self.with_context(context).parse_function_body()?;
 
         match kind {
             MethodKind::Method => parameters.early_errors_method(&body.directives)?,
-- 
2.43.0


From 213c906d447d93324584e87e62b510fb4a3929b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 56/62] fix: elements of array assignment patterns are
 separated by commas

---
 parser/src/assignment_pattern.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 4db6dc9..59bfe1b 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,10 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    if !self.current_matches(&punct!("]")) && !self.current_matches(&punct!(",")) {
+                        return Err(Error::unexpected_token(self.consume()?));
+                    }
                 }
             }
         }
-- 
2.43.0


From b6d743190bbf955436b45ca470a159f13c6a7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 57/62] fix: the left side of for-of does not start with let

---
 parser/src/iteration.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 1692619..398c13f 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -135,9 +135,16 @@ where
             return Err(Error::unexpected_token(self.consume()?));
         }
 
+        let starts_with_let = self.current_matches(&keyword!("let"));
         let declaration = self.parse_for_declaration()?;
 
         match self.current()? {
+            // `for (let` is a declaration, if it is not `for (let.a in b)` or `for (let;;)`.
+            token_matches!(keyword!("of"))
+                if starts_with_let && matches!(declaration, ForDeclaration::Expr(_)) =>
+            {
+                Err(Error::unexpected_token(self.consume()?))
+            }
             token_matches!(keyword!("of")) => {
                 self.parse_for_of(span_start, declaration, asynchronous)
             }
-- 
2.43.0


From 919bb734d4e492f17fcad6e08a99027f8b05ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 58/62] fix: space array assignment patterns as array literals
 are

---
 codegen/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index b1768fc..381cd34 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1189,11 +1189,18 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
         // The elements contains an empty element for each comma.
-        self.parenthesize('[', false, |s| {
-            for element in node.elements.iter_mut() {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            let mut elements = node.elements.iter_mut().peekable();
+            while let Some(element) = elements.next() {
                 match element {
                     Some(element) => element.traverse(s),
-                    None => s.char(','),
+                    None => {
+                        s.char(',');
+                        if elements.peek().is_some() || node.rest.is_some() {
+                            s.space();
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From 740e96ad01403d693b17a66dadce1d6b46abdba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 59/62] fix: keep the indentation of code nested in variable
 declarations

---
 codegen/src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 381cd34..36f9746 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1133,7 +1133,9 @@ impl Visitor for CodeGenerator<'_> {
         let mut printer = self.with_align();
         let mut declarations = node.declarations.iter_mut().peekable();
         while let Some(decl) = declarations.next() {
-            decl.traverse(&mut printer);
+            // Only the start of the declaration is aligned, not the lines within it.
+            printer.indent();
+            decl.traverse(&mut printer.without_align());
 
             if declarations.peek().is_some() {
                 printer.char(',');
@@ -1257,15 +1259,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_variable_declaration(&mut self, node: &mut VariableDeclaration) -> bool {
         node.pattern.traverse(self);
-
-        if matches!(
-            node.initializer,
-            Some(Expr::ArrowFunction(_) | Expr::Function(_))
-        ) {
-            self.without_align().initializer(&mut node.initializer);
-        } else {
-            self.initializer(&mut node.initializer);
-        }
+        self.initializer(&mut node.initializer);
         false
     }
 
-- 
2.43.0


From 7310597aba4cde06c430ec3d699ede0e2905813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 60/62] fix: align variable declarations with the column of the
 first one

---
 codegen/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 36f9746..c21fce5 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -281,15 +281,12 @@ impl CodeGenerator<'_> {
     }
 
     fn with_align(&mut self) -> CodeGenerator<'_> {
-        let align = self.col_pos();
+        let align = (!self.ctx.minified).then(|| self.column());
         CodeGenerator {
             data: self.data,
             skip_next_separation: self.skip_next_separation,
             index: self.index.clone(),
-            ctx: GeneratorContext {
-                align: Some(align),
-                ..self.ctx
-            },
+            ctx: GeneratorContext { align, ..self.ctx },
         }
     }
 
@@ -332,6 +329,13 @@ impl CodeGenerator<'_> {
         self.pos() - self.index.last_new_line.get()
     }
 
+    /// Current column in characters, strings and templates can contain lines of their own.
+    fn column(&self) -> usize {
+        let is_line_terminator = |ch| matches!(ch, '\n' | '\r' | '\u{2028}' | '\u{2029}');
+        let line = self.data.rsplit(is_line_terminator).next();
+        line.map_or(0, |line| line.chars().count())
+    }
+
     /// Add char to output.
     fn char(&mut self, ch: char) {
         self.indent();
-- 
2.43.0


From abe48b0b3be51bc07a48b840d2c55f32acac7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:05 +0000
Subject: [PATCH 61/62] fix: space between an elision and the rest of array
 bindings

---
 codegen/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index c21fce5..e1a0d57 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1173,9 +1173,14 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if matches!(node.elements.last(), Some(Some(_))) {
-                    s.char(',');
-                    s.space();
+                match node.elements.last() {
+                    Some(Some(_)) => {
+                        s.char(',');
+                        s.space();
+                    }
+                    // The comma of the elision is already added.
+                    Some(None) => s.space(),
+                    None => {}
                 }
 
                 s.string("...");
-- 
2.43.0


From 38fdf05010ea0ac93280e4b0f313afd5a0b633e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 62/62] fix: duplicate names within patterns of method and
 setter parameters

---
 parser/src/static_semantics/mod.rs | 42 +++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 5002e41..93d717a 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
+use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, ObjectBindingProp, Spanned};
 
 impl_trait!(
     impl trait ExprSemantics for Expr {
@@ -91,13 +91,36 @@ impl_trait!(
                 BindingPattern::Ident(ident) => {
                     vec![ident.name.as_ref()]
                 }
-                BindingPattern::Array(_arr) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Array(array) => {
+                    let elements = array.elements.iter().flatten();
+                    let mut names: Vec<&str> = elements
+                        .flat_map(|element| element.pattern.get_bound_names())
+                        .collect();
+
+                    if let Some(rest) = &array.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
-                BindingPattern::Object(_obj) => {
-                    // TODO
-                    vec![]
+                BindingPattern::Object(object) => {
+                    let mut names = Vec::new();
+                    for prop in &object.props {
+                        match prop {
+                            ObjectBindingProp::Single(single) => {
+                                names.push(single.ident.name.as_ref());
+                            }
+                            ObjectBindingProp::Named(named) => {
+                                names.append(&mut named.binding.pattern.get_bound_names());
+                            }
+                        }
+                    }
+
+                    if let Some(rest) = &object.rest {
+                        names.append(&mut rest.get_bound_names());
+                    }
+
+                    names
                 }
             }
         }
@@ -151,7 +174,10 @@ impl_trait!(
 
         fn early_errors_method(&self, body_directives: &[LitString]) -> Result<()> {
             self.early_errors_forbidden_use_strict(body_directives)?;
+            self.early_errors_duplicate_names()
+        }
 
+        fn early_errors_duplicate_names(&self) -> Result<()> {
             let mut bound_names = self.bound_names();
             bound_names.sort_unstable();
 
@@ -173,6 +199,8 @@ impl_trait!(
         fn early_errors_setter(&self, body_directives: &[LitString]) -> Result<()> {
             self.early_errors_forbidden_use_strict(body_directives)?;
 
+            self.early_errors_duplicate_names()?;
+
             if self.rest.is_some() {
                 return Err(Error::syntax_error(
                     "Setter function parameter must not be a rest parameter".to_owned(),
-- 
2.43.0

