From 190203810f91c22ac20ba2bcd17fe9cf2d0a06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/21] fix: recognise a number that ends the text

---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..5d67354 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -26,7 +26,8 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
+    let position = position.unwrap_or(code.len());
 
     let number_str = &code[0..position];
     let number = if has_dot_been_used {
-- 
2.43.0


From fd43c209a4822d2c70cd35842d01e30eaf524d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/21] fix: slice strings by bytes, not by character count

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 5d67354..43242d9 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -69,7 +69,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
-- 
2.43.0


From e95794d6fc76d1ceab31845c200e552c104076bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 03/21] fix: do not cut multi-byte characters in symbols and
 ellipses

---
 src/lexer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 43242d9..f1c6831 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -125,7 +125,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
@@ -364,7 +364,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len = code.chars().next().map_or(1, |char| char.len_utf8());
+        let raw_symbol = &code[..symbol_len];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 2d0659cf7bedcf4b54320e94125cb54aa6386d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 04/21] fix: an escaped colon does not escape the quote after
 it

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index f1c6831..70ea553 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -78,7 +78,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From 8afbb0947fee426d0256a032fa827f320a50953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 05/21] fix: accept digits after the first character of an
 identifier

---
 src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 70ea553..3ef54c6 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -55,9 +55,9 @@ fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
 fn parse_identifier(code: &str) -> Option<&str> {
     let non_ident_position = code
         .chars()
-        .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
+        .enumerate()
+        .take_while(|(index, char)| {
+            *char == '_' || char.is_ascii_alphabetic() || (*index > 0 && char.is_ascii_digit())
         })
         .count();
 
-- 
2.43.0


From de37bc32882979c40dac7f185754ca31c4c837c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 06/21] fix: treat carriage returns as blank space

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 3ef54c6..e5a641d 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -109,7 +109,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From 0861f0956440816878112834e5cf529b0b422689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 07/21] fix: do not take the beginning of a longer name for a
 keyword

---
 src/lexer/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index e5a641d..95a3ed4 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -38,11 +38,19 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+/// Checks if the code starts with the given word, and that the word ends there instead of being only
+/// the beginning of a longer name.
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word).map_or(false, |rest| {
+        !rest.starts_with(|char: char| char == '_' || char.is_ascii_alphanumeric())
+    })
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -135,9 +143,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -147,7 +155,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From ba4bf6343b5ef2028f143036d7722c0d35f3ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 08/21] fix: tokenize question marks as such and accept them
 after O RLY and WTF

---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 95a3ed4..fa60975 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -253,7 +253,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From 0403e100fe66a1f82f68405bb015e55420a1fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 09/21] fix: count lines inside tokens, and columns in
 characters

---
 src/lexer/position.rs            | 16 ++++++++--------
 src/lexer/range.rs               |  4 ++++
 src/parser/statement_iterator.rs |  2 ++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..6d1f5aa 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -40,19 +40,19 @@ impl PartialOrd for Position {
 
 impl Add<&str> for Position {
     type Output = Position;
-    fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+    fn add(mut self, rhs: &str) -> Self::Output {
+        self += rhs;
+        self
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        self.column = match rhs.rsplit_once('\n') {
+            Some((_, last_line)) => 1 + last_line.chars().count() as i32,
+            None => self.column + rhs.chars().count() as i32,
+        };
+        self.line = self.line + rhs.matches('\n').count() as i32;
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..ddd4965 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,8 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    // A token such as a string may end in a later line than the one it started in
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 14717d1dbd33d807bc3612d171122b28dc28b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/21] fix: report a missing R instead of panicking

---
 src/parser/statements/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..f786194 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -209,15 +209,11 @@ pub(crate) fn parse_statement(
             None => Ok(Node::Expression(ASTExpression::Value(
                 ASTExpressionValue::VariableAccess(variable_access),
             ))),
-            Some(TokenType::Keyword(Keywords::R)) => {
-                VariableAssignment::parse(variable_access, tokens).map(|t| t.into())
-            }
             Some(TokenType::Keyword(Keywords::HAS_A)) => {
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
-
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            // Anything other than an `R` is reported as a missing `R`
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From 1c346f9deb831cdb9530562beae33b68f6b049d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 11/21] fix: report the unsupported MAEK as unexpected instead
 of panicking

---
 src/parser/expression/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..e098e9a 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,7 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
+                    // TODO - Type Cast operation (Keywords::MAEK)
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From 9157bb9ee0b38fd70d9e6395010f6926e694e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 12/21] fix: keep the statement after HAI, IF U SAY SO and the
 OIC of a WTF

---
 src/parser/statements/hai.rs      | 2 +-
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..73c743c 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.collect(),
         })
     }
 }
diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From 896d62422ec7ac8b4471c7a435aa95fd288fa46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 13/21] fix: ignore comments when parsing

---
 src/parser/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3746de2..b4b1afd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -1,4 +1,4 @@
-use crate::lexer::Token;
+use crate::lexer::{Token, TokenType};
 use statements::parse_statement;
 
 use self::{blocks::parse_block_root, statement_iterator::StatementIterator};
@@ -15,7 +15,15 @@ mod statement_iterator;
 pub mod statements;
 
 /// Transforms an array of tokens into an ASTBlock, which is an array of statements.
-pub fn parse(tokens: Vec<Token>) -> ASTBlock {
+///
+/// Comments are not part of the AST, and are ignored.
+pub fn parse(mut tokens: Vec<Token>) -> ASTBlock {
+    tokens.retain(|token| {
+        !matches!(
+            token.token_type,
+            TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+        )
+    });
     let mut line_iterator = StatementIterator::new(tokens);
     return parse_block_root(&mut line_iterator);
 }
-- 
2.43.0


From c79972f7a16a90c1617c2f9df51a8ad1f6dae1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 14/21] fix: an ellipsis before a comma does not end the block

---
 src/parser/statement_iterator.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index ddd4965..4d8b968 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -62,9 +62,10 @@ impl StatementIterator {
         let remaining_tokens = self.collect();
         self.peeked = None;
 
+        // An ellipsis at the start of a statement has nothing to continue
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
@@ -109,15 +110,20 @@ impl Iterator for StatementIterator {
             None => {}
         };
 
+        while self
+            .tokens_iter
+            .next_if(|t| {
+                t.token_type == TokenType::Ellipsis && t.range.start_line() == self.current_line
+            })
+            .is_some()
+        {
+            self.tokens_iter
+                .peek()
+                .map(|t| self.current_line = t.range.start_line());
+        }
+
         match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
             None | Some((TokenType::Comma, _)) => None,
-            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
-                self.tokens_iter.next();
-                self.tokens_iter
-                    .peek()
-                    .map(|t| self.current_line = t.range.start_line());
-                self.next()
-            }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
                     // A token such as a string may end in a later line than the one it started in
-- 
2.43.0


From 5faf56d48749667446fafce31cc6d86b91c278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 15/21] fix: keep the statement after a block header with too
 many tokens

---
 src/parser/blocks.rs             | 7 ++++---
 src/parser/statement_iterator.rs | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..249a200 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -142,9 +142,10 @@ fn parse_block(
             None => {}
         };
 
-        statement_iterator
-            .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+        if let Err(err) = statement_iterator.next_statement_should_be_empty() {
+            block.0.push_back(err.into());
+            statement_iterator.next_statement();
+        }
 
         match statement_iterator.peek() {
             Some(token) if should_stop_at_token(token) => break,
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 4d8b968..e4b333b 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -49,11 +49,14 @@ impl StatementIterator {
         }
     }
 
+    /// Advances to the next statement, unless there are tokens remaining in the current one. In that
+    /// case the tokens are consumed, but the next statement is not reached yet.
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0


From 236c4a16a7b226b34615a759666598f5e4aef0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 16/21] fix: accept blocks with no statements

---
 src/parser/blocks.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 249a200..a687d8f 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -134,6 +134,10 @@ fn parse_block(
     should_stop_at_token: &dyn Fn(&Token) -> bool,
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
+    match statement_iterator.peek() {
+        Some(token) if should_stop_at_token(token) => return block,
+        _ => {}
+    }
     loop {
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
-- 
2.43.0


From 00e9f13a65457c03dc83d36502eac69f5b1e8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 17/21] fix: implement iterating over the errors of a block

---
 src/parser/blocks.rs | 56 ++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index a687d8f..8d6cca9 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The nodes yet to be visited. The last ones are the first to be visited.
+    pending: Vec<std::collections::vec_deque::Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            pending: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +73,29 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
-    type Item = ASTErrorType;
+    type Item = &'a ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
-
-        todo!()
+        loop {
+            match self.pending.last_mut()?.next() {
+                None => {
+                    self.pending.pop();
+                }
+                Some(Node::ASTError(error)) => return Some(error),
+                Some(node) => {
+                    let inner_blocks = node.get_inner_block().unwrap_or_default();
+                    self.pending
+                        .extend(inner_blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+            }
+        }
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From b25e523341f481a8bcdbe582ad5bbb6a6b7d05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 18/21] fix: report invalid loop operations and conditions as
 documented

---
 src/parser/statements/im_in_yr.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/im_in_yr.rs b/src/parser/statements/im_in_yr.rs
index 1ed8e48..dafded7 100644
--- a/src/parser/statements/im_in_yr.rs
+++ b/src/parser/statements/im_in_yr.rs
@@ -220,7 +220,10 @@ fn parse_conditional(
                 ..
             },
         ) => Some(LoopCondition::WILE(parse_conditional!(token)?)),
-        _ => None,
+        _ => match tokens.next() {
+            Some(token) => return Err(ImInYrError::InvalidConditional(token).into()),
+            None => None,
+        },
     };
 
     Ok(condition)
@@ -247,7 +250,18 @@ fn parse_iteration_operation(
                 ..
             },
         ) => LoopOperation::NERFIN(token),
-        _ => return Ok(None),
+        _ => {
+            let invalid_token = tokens.next_if(|t| {
+                !matches!(
+                    t.token_type,
+                    TokenType::Keyword(Keywords::TIL | Keywords::WILE)
+                )
+            });
+            return match invalid_token {
+                Some(token) => Err(ImInYrError::InvalidOperation(token).into()),
+                None => Ok(None),
+            };
+        }
     };
 
     match tokens.next() {
-- 
2.43.0


From e2ad8258b1fe7a5d81f2cc92858896f75dcad784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 19/21] fix: report missing function names and arguments before
 MKAY as documented

---
 src/parser/statements/i_is.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/i_is.rs b/src/parser/statements/i_is.rs
index e3f24c5..3f8634b 100644
--- a/src/parser/statements/i_is.rs
+++ b/src/parser/statements/i_is.rs
@@ -44,7 +44,11 @@ impl IIz {
         tokens: &mut StatementIterator,
     ) -> Result<IIz, ASTErrorType> {
         let name = match tokens.next() {
-            None => return Err(ASTErrorType::IIz(IIzError::MissingName(first_token))),
+            None
+            | Some(Token {
+                token_type: TokenType::Keyword(Keywords::MKAY),
+                ..
+            }) => return Err(ASTErrorType::IIz(IIzError::MissingName(first_token))),
             Some(token) => VariableAccess::parse(token, tokens)?,
         };
 
@@ -57,8 +61,12 @@ impl IIz {
                 None => break,
             };
             let first_expression_token = match tokens.next() {
+                None
+                | Some(Token {
+                    token_type: TokenType::Keyword(Keywords::MKAY),
+                    ..
+                }) => return Err(ASTErrorType::IIz(IIzError::MissingArgument(yr_token))),
                 Some(token) => token,
-                None => return Err(ASTErrorType::IIz(IIzError::MissingArgument(yr_token))),
             };
             arguments.push_back(ASTExpression::parse(first_expression_token, tokens)?);
             if tokens
-- 
2.43.0


From b39847c741de5bed70ac1bc06c8b395161521506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 20/21] hooks: export the syntax tree under cfg(lolcode_verif)

---
 src/lib.rs                     |   2 +
 src/parser/mod.rs              |   2 +
 src/parser/statements/gtfo.rs  |   5 +
 src/parser/statements/o_rly.rs |   5 +
 src/parser/verif_hooks.rs      | 659 +++++++++++++++++++++++++++++++++
 5 files changed, 673 insertions(+)
 create mode 100644 src/parser/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3a2a0e8..7175b07 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![warn(missing_docs)]
+// `--cfg lolcode_verif` compiles the hooks for runtime monitors
+#![allow(unexpected_cfgs)]
 
 //! An AST generator for LOLCODE focused on completeness
 //!
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b4b1afd..f526f35 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -13,6 +13,8 @@ pub mod expression;
 mod statement_iterator;
 /// Statement related data structures and logic
 pub mod statements;
+#[cfg(lolcode_verif)]
+pub mod verif_hooks;
 
 /// Transforms an array of tokens into an ASTBlock, which is an array of statements.
 ///
diff --git a/src/parser/statements/gtfo.rs b/src/parser/statements/gtfo.rs
index 608e4f1..7fb4584 100644
--- a/src/parser/statements/gtfo.rs
+++ b/src/parser/statements/gtfo.rs
@@ -26,4 +26,9 @@ impl Gtfo {
     pub(crate) fn parse(token: Token) -> Gtfo {
         Gtfo { gtfo_token: token }
     }
+
+    #[cfg(lolcode_verif)]
+    pub(crate) fn verif_token(&self) -> &Token {
+        &self.gtfo_token
+    }
 }
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index c769000..081fb6c 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -49,6 +49,11 @@ pub enum ORlyError {
 }
 
 impl ORly {
+    #[cfg(lolcode_verif)]
+    pub(crate) fn verif_token(&self) -> &Token {
+        &self.o_rly_token
+    }
+
     pub(crate) fn parse(
         first_token: Token,
         tokens: &mut StatementIterator,
diff --git a/src/parser/verif_hooks.rs b/src/parser/verif_hooks.rs
new file mode 100644
index 0000000..8958c47
--- /dev/null
+++ b/src/parser/verif_hooks.rs
@@ -0,0 +1,659 @@
+//! Read-only export of the syntax tree, for runtime monitors that live outside of this crate.
+//!
+//! Only compiled with `--cfg lolcode_verif`.
+#![allow(missing_docs)]
+
+use super::ast_node::ASTStatement;
+use super::blocks::ASTBlock;
+use super::error::ASTErrorType;
+use super::expression::binary_operation::BinaryOpt;
+use super::expression::identifier::Identifier;
+use super::expression::nary_operations::NaryOpt;
+use super::expression::unary_operation::UnaryOpt;
+use super::expression::variable_access::VariableAccessSlot;
+use super::expression::{
+    ASTExpression, ASTExpressionValue, ASTType, ExpressionError, VariableAccess,
+};
+use super::statements::assignment::{VariableAssignment, VariableAssignmentError};
+use super::statements::how_is_i::HowIsIError;
+use super::statements::i_has_a::{IHasAError, IHasAInitialValue};
+use super::statements::i_is::IIzError;
+use super::statements::im_in_yr::{ImInYrError, LoopCondition, LoopOperation};
+use super::statements::o_rly::ORlyError;
+use super::statements::Node;
+use crate::lexer::{Keywords, Position, Token};
+
+/// All keywords, as enumerated by the lexer
+pub fn all_keywords() -> Vec<Keywords> {
+    Keywords::iter().cloned().collect()
+}
+
+#[derive(Clone, Debug, PartialEq)]
+pub enum Item {
+    Tok(Token),
+    Node(Tree),
+}
+
+#[derive(Clone, Debug, PartialEq)]
+pub struct Tree {
+    pub kind: &'static str,
+    pub items: Vec<(&'static str, Item)>,
+}
+
+impl Tree {
+    fn new(kind: &'static str) -> Tree {
+        Tree {
+            kind,
+            items: Vec::new(),
+        }
+    }
+    fn tok(mut self, field: &'static str, token: &Token) -> Tree {
+        self.items.push((field, Item::Tok(token.clone())));
+        self
+    }
+    fn opt(self, field: &'static str, token: Option<&Token>) -> Tree {
+        match token {
+            Some(token) => self.tok(field, token),
+            None => self,
+        }
+    }
+    fn toks<'a>(mut self, field: &'static str, tokens: impl Iterator<Item = &'a Token>) -> Tree {
+        for token in tokens {
+            self = self.tok(field, token);
+        }
+        self
+    }
+    fn node(mut self, field: &'static str, tree: Tree) -> Tree {
+        self.items.push((field, Item::Node(tree)));
+        self
+    }
+    fn nodes(mut self, field: &'static str, trees: impl Iterator<Item = Tree>) -> Tree {
+        for tree in trees {
+            self = self.node(field, tree);
+        }
+        self
+    }
+}
+
+/// Exports a whole block
+pub fn export(block: &ASTBlock) -> Tree {
+    Tree::new("Block").nodes("stmt", block.0.iter().map(export_node))
+}
+
+/// Exports an error
+pub fn export_error(error: &ASTErrorType) -> Tree {
+    use ASTErrorType as E;
+    match error {
+        E::UnexpectedToken(t) => Tree::new("Error:UnexpectedToken").tok("token", t),
+        E::TooManyTokens(ts) => Tree::new("Error:TooManyTokens").toks("token", ts.iter()),
+        E::MissingToken(t) => Tree::new("Error:MissingToken").tok("token", t),
+        E::MissingBlockClosingToken(t) => {
+            Tree::new("Error:MissingBlockClosingToken").tok("token", t)
+        }
+        E::Expression(ExpressionError::MissingOperands(t)) => {
+            Tree::new("Error:MissingOperands").tok("token", t)
+        }
+        E::IHasA(e) => match e {
+            IHasAError::InvalidIdentifier(t) => {
+                Tree::new("Error:IHasA:InvalidIdentifier").tok("token", t)
+            }
+            IHasAError::MissingIdentifier(t) => {
+                Tree::new("Error:IHasA:MissingIdentifier").tok("token", t)
+            }
+            IHasAError::ExpectedInitialValue(t) => {
+                Tree::new("Error:IHasA:ExpectedInitialValue").tok("token", t)
+            }
+        },
+        E::VariableAssignment(e) => match e {
+            VariableAssignmentError::MissingR(t) => {
+                Tree::new("Error:Assignment:MissingR").tok("token", t)
+            }
+            VariableAssignmentError::ExpectedValue(t) => {
+                Tree::new("Error:Assignment:ExpectedValue").tok("token", t)
+            }
+        },
+        E::ORly(e) => match e {
+            ORlyError::MissingQuestionMark(t) => {
+                Tree::new("Error:ORly:MissingQuestionMark").tok("token", t)
+            }
+            ORlyError::MissingMebbeExpression(t) => {
+                Tree::new("Error:ORly:MissingMebbeExpression").tok("token", t)
+            }
+        },
+        E::HowIsI(HowIsIError::MissingNameIdentifier(t)) => {
+            Tree::new("Error:HowIsI:MissingNameIdentifier").tok("token", t)
+        }
+        E::ImInYr(e) => {
+            let (kind, t) = match e {
+                ImInYrError::MissingYr(t) => ("Error:ImInYr:MissingYr", t),
+                ImInYrError::MissingStartLabel(t) => ("Error:ImInYr:MissingStartLabel", t),
+                ImInYrError::InvalidStartLabel(t) => ("Error:ImInYr:InvalidStartLabel", t),
+                ImInYrError::MissingEndLabel(t) => ("Error:ImInYr:MissingEndLabel", t),
+                ImInYrError::InvalidEndLabel(t) => ("Error:ImInYr:InvalidEndLabel", t),
+                ImInYrError::MissingImOuttaYr(t) => ("Error:ImInYr:MissingImOuttaYr", t),
+                ImInYrError::InvalidOperation(t) => ("Error:ImInYr:InvalidOperation", t),
+                ImInYrError::MissingOperand(t) => ("Error:ImInYr:MissingOperand", t),
+                ImInYrError::InvalidConditional(t) => ("Error:ImInYr:InvalidConditional", t),
+                ImInYrError::MissingConditionalExpression(t) => {
+                    ("Error:ImInYr:MissingConditionalExpression", t)
+                }
+            };
+            Tree::new(kind).tok("token", t)
+        }
+        E::IIz(e) => match e {
+            IIzError::MissingName(t) => Tree::new("Error:IIz:MissingName").tok("token", t),
+            IIzError::MissingArgument(t) => Tree::new("Error:IIz:MissingArgument").tok("token", t),
+            IIzError::MissingMkay(t) => Tree::new("Error:IIz:MissingMkay").tok("token", t),
+        },
+    }
+}
+
+fn export_identifier(identifier: &Identifier) -> Tree {
+    Tree::new("Identifier")
+        .opt("srs", identifier.srs.as_ref())
+        .tok("name", &identifier.name)
+}
+
+fn export_slot(slot: &VariableAccessSlot) -> Tree {
+    Tree::new("Slot")
+        .tok("slot_access", &slot.slot_access_token)
+        .node("identifier", export_identifier(&slot.identifier))
+}
+
+fn export_variable(variable: &VariableAccess) -> Tree {
+    Tree::new("Variable")
+        .node("identifier", export_identifier(&variable.identifier))
+        .nodes("slot", variable.accesses.iter().map(export_slot))
+}
+
+fn binary_kind(operator: &BinaryOpt) -> &'static str {
+    match operator {
+        BinaryOpt::EitherOf(_) => "Binary:EitherOf",
+        BinaryOpt::WonOf(_) => "Binary:WonOf",
+        BinaryOpt::SumOf(_) => "Binary:SumOf",
+        BinaryOpt::DiffOf(_) => "Binary:DiffOf",
+        BinaryOpt::ProduktOf(_) => "Binary:ProduktOf",
+        BinaryOpt::QuoshuntOf(_) => "Binary:QuoshuntOf",
+        BinaryOpt::ModOf(_) => "Binary:ModOf",
+        BinaryOpt::BiggrOf(_) => "Binary:BiggrOf",
+        BinaryOpt::SmallrOf(_) => "Binary:SmallrOf",
+        BinaryOpt::BothSaem(_) => "Binary:BothSaem",
+        BinaryOpt::BothOf(_) => "Binary:BothOf",
+        BinaryOpt::Diffrint(_) => "Binary:Diffrint",
+    }
+}
+
+fn nary_kind(operator: &NaryOpt) -> &'static str {
+    match operator {
+        NaryOpt::AllOf(_) => "Nary:AllOf",
+        NaryOpt::Smoosh(_) => "Nary:Smoosh",
+        NaryOpt::AnyOf(_) => "Nary:AnyOf",
+    }
+}
+
+fn unary_kind(operator: &UnaryOpt) -> &'static str {
+    match operator {
+        UnaryOpt::Not(_) => "Unary:Not",
+    }
+}
+
+fn type_kind(value: &ASTType) -> &'static str {
+    match value {
+        ASTType::Bukkit(_) => "Type:Bukkit",
+        ASTType::Numbr(_) => "Type:Numbr",
+        ASTType::Numbar(_) => "Type:Numbar",
+        ASTType::Yarn(_) => "Type:Yarn",
+        ASTType::Troof(_) => "Type:Troof",
+        ASTType::Noob(_) => "Type:Noob",
+    }
+}
+
+fn type_token(value: &ASTType) -> &Token {
+    match value {
+        ASTType::Bukkit(t)
+        | ASTType::Numbr(t)
+        | ASTType::Numbar(t)
+        | ASTType::Yarn(t)
+        | ASTType::Troof(t)
+        | ASTType::Noob(t) => t,
+    }
+}
+
+fn binary_token(operator: &BinaryOpt) -> &Token {
+    match operator {
+        BinaryOpt::EitherOf(t)
+        | BinaryOpt::WonOf(t)
+        | BinaryOpt::SumOf(t)
+        | BinaryOpt::DiffOf(t)
+        | BinaryOpt::ProduktOf(t)
+        | BinaryOpt::QuoshuntOf(t)
+        | BinaryOpt::ModOf(t)
+        | BinaryOpt::BiggrOf(t)
+        | BinaryOpt::SmallrOf(t)
+        | BinaryOpt::BothSaem(t)
+        | BinaryOpt::BothOf(t)
+        | BinaryOpt::Diffrint(t) => t,
+    }
+}
+
+fn nary_token(operator: &NaryOpt) -> &Token {
+    match operator {
+        NaryOpt::AllOf(t) | NaryOpt::Smoosh(t) | NaryOpt::AnyOf(t) => t,
+    }
+}
+
+fn unary_token(operator: &UnaryOpt) -> &Token {
+    match operator {
+        UnaryOpt::Not(t) => t,
+    }
+}
+
+fn export_value(value: &ASTExpressionValue) -> Tree {
+    match value {
+        ASTExpressionValue::VariableAccess(variable) => export_variable(variable),
+        ASTExpressionValue::LiteralValue(token) => Tree::new("Literal").tok("token", token),
+    }
+}
+
+/// Exports an expression
+pub fn export_expression(expression: &ASTExpression) -> Tree {
+    match expression {
+        ASTExpression::Value(value) => export_value(value),
+        ASTExpression::UnaryOperation(op) => Tree::new(unary_kind(&op.operator))
+            .tok("operator", unary_token(&op.operator))
+            .node("operand", export_expression(&op.expression)),
+        ASTExpression::BinaryOperation(op) => Tree::new(binary_kind(&op.operator))
+            .tok("operator", binary_token(&op.operator))
+            .node("left", export_expression(&op.left))
+            .opt("an", op.an_token.as_ref())
+            .node("right", export_expression(&op.right)),
+        ASTExpression::NaryOperation(op) => {
+            let mut tree =
+                Tree::new(nary_kind(&op.operator)).tok("operator", nary_token(&op.operator));
+            for operand in op.expressions.iter() {
+                tree = tree
+                    .node("operand", export_expression(&operand.operand))
+                    .opt("an", operand.an_token.as_ref());
+            }
+            tree.opt("mkay", op.mkay_token.as_ref())
+        }
+    }
+}
+
+fn export_assignment(assignment: &VariableAssignment) -> Tree {
+    Tree::new("Assignment")
+        .node("variable", export_variable(&assignment.variable_access))
+        .tok("r", &assignment.r_token)
+        .node("value", export_expression(&assignment.expression))
+}
+
+/// Exports a statement
+pub fn export_node(node: &Node) -> Tree {
+    match node {
+        Node::ASTError(error) => export_error(error),
+        Node::Expression(expression) => {
+            Tree::new("Expression").node("expression", export_expression(expression))
+        }
+        Node::VariableAssignment(assignment) => export_assignment(assignment),
+        Node::IHasA(s) => {
+            let tree = Tree::new("IHasA")
+                .tok("keyword", &s.i_has_a_token)
+                .node("identifier", export_identifier(&s.identifier));
+            match s.initial_value {
+                None => tree,
+                Some(IHasAInitialValue::Expression(ref e)) => {
+                    tree.node("value", export_expression(e))
+                }
+                Some(IHasAInitialValue::Type(ref t)) => {
+                    tree.node("type", Tree::new(type_kind(t)).tok("token", type_token(t)))
+                }
+            }
+        }
+        Node::Hai(s) => Tree::new("Hai")
+            .tok("keyword", &s.hai_token)
+            .toks("version", s.version.iter()),
+        Node::KThxBye(s) => Tree::new("KThxBye").tok("keyword", &s.k_thx_bye_token),
+        Node::Gtfo(s) => Tree::new("Gtfo").tok("keyword", s.verif_token()),
+        Node::BukkitSetSlot(s) => Tree::new("BukkitSetSlot")
+            .node("bukkit", export_variable(&s.bukkit))
+            .node("slot_name", export_identifier(&s.slot_name))
+            .node("value", export_expression(&s.value)),
+        Node::Visible(s) => Tree::new("Visible")
+            .tok("keyword", &s.visible_token)
+            .nodes("value", s.expressions.iter().map(export_expression))
+            .opt("exclamation_mark", s.exclamation_mark.as_ref()),
+        Node::FoundYr(s) => Tree::new("FoundYr")
+            .tok("keyword", &s.found_yr_token)
+            .node("value", export_expression(&s.expression)),
+        Node::Gimmeh(s) => Tree::new("Gimmeh")
+            .tok("keyword", &s.gimmeh_token)
+            .node("variable", export_variable(&s.variable_access)),
+        Node::IIz(s) => Tree::new("IIz")
+            .tok("keyword", &s.i_iz_token)
+            .node("name", export_variable(&s.name))
+            .nodes("argument", s.arguments.iter().map(export_expression)),
+        Node::HowIzI(s) => Tree::new("HowIzI")
+            .tok("keyword", &s.how_iz_i_token)
+            .node("name", export_identifier(&s.name))
+            .nodes("argument", s.arguments.iter().map(export_identifier))
+            .node("body", export(&s.body)),
+        Node::ImInYr(s) => {
+            let mut tree = Tree::new("ImInYr")
+                .tok("keyword", &s.im_in_yr_token)
+                .tok("label", &s.label);
+            if let Some(ref op) = s.on_iteration {
+                let (kind, token) = match op.operation {
+                    LoopOperation::UPPIN(ref t) => ("Loop:Uppin", t),
+                    LoopOperation::NERFIN(ref t) => ("Loop:Nerfin", t),
+                };
+                tree = tree.node(
+                    "operation",
+                    Tree::new(kind)
+                        .tok("token", token)
+                        .node("operand", export_variable(&op.operand)),
+                );
+            }
+            if let Some(ref condition) = s.condition {
+                let (kind, expression) = match condition {
+                    LoopCondition::TIL(e) => ("Loop:Til", e),
+                    LoopCondition::WILE(e) => ("Loop:Wile", e),
+                };
+                tree = tree.node(
+                    "condition",
+                    Tree::new(kind).node("expression", export_expression(expression)),
+                );
+            }
+            tree.node("body", export(&s.code_block))
+                .tok("end_label", &s.end_label)
+        }
+        Node::ORly(s) => {
+            let mut tree = Tree::new("ORly").tok("keyword", s.verif_token());
+            if let Some(ref branch) = s.if_true {
+                tree = tree.node(
+                    "if_true",
+                    Tree::new("YaRly")
+                        .tok("keyword", &branch.ya_rly_token)
+                        .node("body", export(&branch.block)),
+                );
+            }
+            for branch in s.mebbes.iter() {
+                tree = tree.node(
+                    "mebbe",
+                    Tree::new("Mebbe")
+                        .tok("keyword", &branch.mebbe_token)
+                        .node("condition", export_expression(&branch.condition))
+                        .node("body", export(&branch.block)),
+                );
+            }
+            if let Some(ref branch) = s.if_false {
+                tree = tree.node(
+                    "if_false",
+                    Tree::new("NoWai")
+                        .tok("keyword", &branch.no_wai_token)
+                        .node("body", export(&branch.block)),
+                );
+            }
+            tree
+        }
+        Node::Wtf(s) => {
+            let mut tree = Tree::new("Wtf").tok("keyword", &s.wtf_token);
+            for case in s.omg.iter() {
+                tree = tree.node(
+                    "omg",
+                    Tree::new("Omg")
+                        .tok("keyword", &case.omg_token)
+                        .node("value", export_expression(&case.expression))
+                        .node("body", export(&case.block)),
+                );
+            }
+            if let Some(ref case) = s.omg_wtf {
+                tree = tree.node(
+                    "omg_wtf",
+                    Tree::new("OmgWtf")
+                        .tok("keyword", &case.omg_wtf_token)
+                        .node("body", export(&case.block)),
+                );
+            }
+            tree
+        }
+    }
+}
+
+/// What a node that knows its own tokens or range says about itself
+#[derive(Clone, Debug)]
+pub struct Span {
+    /// Where this comes from
+    pub source: &'static str,
+    /// The node itself
+    pub tree: Tree,
+    /// What iterating over its tokens gives, if it can do so
+    pub tokens: Option<Vec<Token>>,
+    /// What two further calls to the iterator give, once it was exhausted
+    pub after_end: Vec<Token>,
+    /// The range it reports, if it can do so
+    pub range: Option<(Position, Position)>,
+    /// The operator tokens it reports: by reference, then by value
+    pub operator: Option<(Token, Token)>,
+}
+
+fn drain<'a>(mut iter: impl Iterator<Item = &'a Token>) -> (Option<Vec<Token>>, Vec<Token>) {
+    let mut tokens = Vec::new();
+    while let Some(token) = iter.next() {
+        tokens.push(token.clone());
+    }
+    let after = (0..2).filter_map(|_| iter.next().cloned()).collect();
+    (Some(tokens), after)
+}
+
+fn range((start, end): (&Position, &Position)) -> Option<(Position, Position)> {
+    Some((*start, *end))
+}
+
+fn spans_of_identifier(identifier: &Identifier, out: &mut Vec<Span>) {
+    let (tokens, after_end) = drain(identifier.tokens());
+    out.push(Span {
+        source: "Identifier",
+        tree: export_identifier(identifier),
+        tokens,
+        after_end,
+        range: range(identifier.range()),
+        operator: None,
+    });
+}
+
+fn spans_of_variable(variable: &VariableAccess, out: &mut Vec<Span>) {
+    let (tokens, after_end) = drain(variable.tokens());
+    out.push(Span {
+        source: "VariableAccess",
+        tree: export_variable(variable),
+        tokens,
+        after_end,
+        range: range(variable.range()),
+        operator: None,
+    });
+    spans_of_identifier(&variable.identifier, out);
+    for slot in variable.accesses.iter() {
+        let (tokens, after_end) = drain(slot.tokens());
+        out.push(Span {
+            source: "VariableAccessSlot",
+            tree: export_slot(slot),
+            tokens,
+            after_end,
+            range: None,
+            operator: None,
+        });
+        spans_of_identifier(&slot.identifier, out);
+    }
+}
+
+fn spans_of_expression(expression: &ASTExpression, out: &mut Vec<Span>) {
+    let tree = export_expression(expression);
+    let (tokens, after_end) = drain(expression.tokens());
+    out.push(Span {
+        source: "ASTExpression",
+        tree: tree.clone(),
+        tokens,
+        after_end,
+        range: range(expression.range()),
+        operator: None,
+    });
+    match expression {
+        ASTExpression::Value(value) => {
+            let (tokens, after_end) = drain(value.tokens());
+            out.push(Span {
+                source: "ASTExpressionValue",
+                tree,
+                tokens,
+                after_end,
+                range: range(value.range()),
+                operator: None,
+            });
+            if let ASTExpressionValue::VariableAccess(variable) = value {
+                spans_of_variable(variable, out);
+            }
+        }
+        ASTExpression::UnaryOperation(op) => {
+            let (tokens, after_end) = drain(op.tokens());
+            out.push(Span {
+                source: "UnaryOperation",
+                tree,
+                tokens,
+                after_end,
+                range: None,
+                operator: Some((
+                    op.operator.token().clone(),
+                    op.operator.clone().into_token(),
+                )),
+            });
+            spans_of_expression(&op.expression, out);
+        }
+        ASTExpression::BinaryOperation(op) => {
+            let (tokens, after_end) = drain(op.tokens());
+            out.push(Span {
+                source: "BinaryOperation",
+                tree,
+                tokens,
+                after_end,
+                range: None,
+                operator: Some((
+                    op.operator.token().clone(),
+                    op.operator.clone().into_token(),
+                )),
+            });
+            spans_of_expression(&op.left, out);
+            spans_of_expression(&op.right, out);
+        }
+        ASTExpression::NaryOperation(op) => {
+            let (tokens, after_end) = drain(op.tokens());
+            out.push(Span {
+                source: "NaryOperation",
+                tree,
+                tokens,
+                after_end,
+                range: None,
+                operator: Some((
+                    op.operator.token().clone(),
+                    op.operator.clone().into_token(),
+                )),
+            });
+            for operand in op.expressions.iter() {
+                spans_of_expression(&operand.operand, out);
+            }
+        }
+    }
+}
+
+/// What every expression, variable access, identifier, type and assignment in the block says about
+/// its own tokens and range, outer ones first.
+pub fn spans(block: &ASTBlock) -> Vec<Span> {
+    let mut out = Vec::new();
+    spans_of_block(block, &mut out);
+    out
+}
+
+fn spans_of_block(block: &ASTBlock, out: &mut Vec<Span>) {
+    for node in block.0.iter() {
+        match node {
+            Node::ASTError(_) | Node::Hai(_) | Node::KThxBye(_) | Node::Gtfo(_) => {}
+            Node::Expression(e) => spans_of_expression(e, out),
+            Node::VariableAssignment(s) => {
+                let (tokens, after_end) = drain(s.tokens());
+                out.push(Span {
+                    source: "VariableAssignment",
+                    tree: export_assignment(s),
+                    tokens,
+                    after_end,
+                    range: range(s.range()),
+                    operator: None,
+                });
+                spans_of_variable(&s.variable_access, out);
+                spans_of_expression(&s.expression, out);
+            }
+            Node::IHasA(s) => {
+                spans_of_identifier(&s.identifier, out);
+                match s.initial_value {
+                    None => {}
+                    Some(IHasAInitialValue::Expression(ref e)) => spans_of_expression(e, out),
+                    Some(IHasAInitialValue::Type(ref t)) => out.push(Span {
+                        source: "ASTType",
+                        tree: Tree::new(type_kind(t)).tok("token", type_token(t)),
+                        tokens: None,
+                        after_end: Vec::new(),
+                        range: None,
+                        operator: Some((t.token().clone(), t.clone().into_token())),
+                    }),
+                }
+            }
+            Node::BukkitSetSlot(s) => {
+                spans_of_variable(&s.bukkit, out);
+                spans_of_identifier(&s.slot_name, out);
+                spans_of_expression(&s.value, out);
+            }
+            Node::Visible(s) => s
+                .expressions
+                .iter()
+                .for_each(|e| spans_of_expression(e, out)),
+            Node::FoundYr(s) => spans_of_expression(&s.expression, out),
+            Node::Gimmeh(s) => spans_of_variable(&s.variable_access, out),
+            Node::IIz(s) => {
+                spans_of_variable(&s.name, out);
+                s.arguments.iter().for_each(|e| spans_of_expression(e, out));
+            }
+            Node::HowIzI(s) => {
+                spans_of_identifier(&s.name, out);
+                s.arguments.iter().for_each(|i| spans_of_identifier(i, out));
+                spans_of_block(&s.body, out);
+            }
+            Node::ImInYr(s) => {
+                if let Some(ref op) = s.on_iteration {
+                    spans_of_variable(&op.operand, out);
+                }
+                if let Some(LoopCondition::TIL(ref e) | LoopCondition::WILE(ref e)) = s.condition {
+                    spans_of_expression(e, out);
+                }
+                spans_of_block(&s.code_block, out);
+            }
+            Node::ORly(s) => {
+                if let Some(ref branch) = s.if_true {
+                    spans_of_block(&branch.block, out);
+                }
+                for branch in s.mebbes.iter() {
+                    spans_of_expression(&branch.condition, out);
+                    spans_of_block(&branch.block, out);
+                }
+                if let Some(ref branch) = s.if_false {
+                    spans_of_block(&branch.block, out);
+                }
+            }
+            Node::Wtf(s) => {
+                for case in s.omg.iter() {
+                    spans_of_expression(&case.expression, out);
+                    spans_of_block(&case.block, out);
+                }
+                if let Some(ref case) = s.omg_wtf {
+                    spans_of_block(&case.block, out);
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From f78884074f007680140bf1fb8d859b8bce147188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:07 +0000
Subject: [PATCH 21/21] verif hooks: other ways of using the token iterators

---
 src/parser/verif_hooks.rs | 78 ++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/src/parser/verif_hooks.rs b/src/parser/verif_hooks.rs
index 8958c47..5514041 100644
--- a/src/parser/verif_hooks.rs
+++ b/src/parser/verif_hooks.rs
@@ -430,19 +430,61 @@ pub struct Span {
     pub tokens: Option<Vec<Token>>,
     /// What two further calls to the iterator give, once it was exhausted
     pub after_end: Vec<Token>,
+    /// The ways of using the iterator that give something else than asking for one token at a time
+    pub unlike: Vec<&'static str>,
     /// The range it reports, if it can do so
     pub range: Option<(Position, Position)>,
     /// The operator tokens it reports: by reference, then by value
     pub operator: Option<(Token, Token)>,
 }
 
-fn drain<'a>(mut iter: impl Iterator<Item = &'a Token>) -> (Option<Vec<Token>>, Vec<Token>) {
-    let mut tokens = Vec::new();
+fn drain<'a, I: Iterator<Item = &'a Token>>(
+    make: impl Fn() -> I,
+) -> (Option<Vec<Token>>, Vec<Token>, Vec<&'static str>) {
+    let mut iter = make();
+    let mut tokens: Vec<&Token> = Vec::new();
+    let mut unlike = Vec::new();
     while let Some(token) = iter.next() {
-        tokens.push(token.clone());
+        tokens.push(token);
     }
     let after = (0..2).filter_map(|_| iter.next().cloned()).collect();
-    (Some(tokens), after)
+
+    let n = tokens.len();
+    let same = |other: &[&Token]| {
+        other.len() == n && other.iter().zip(&tokens).all(|(a, b)| std::ptr::eq(*a, *b))
+    };
+    let (low, high) = make().size_hint();
+    if low > n || high.map_or(false, |high| high < n) {
+        unlike.push("size_hint");
+    } else if !same(&make().collect::<Vec<_>>()) {
+        unlike.push("collect");
+    }
+    if n <= 200 {
+        if make().count() != n {
+            unlike.push("count");
+        }
+        if !matches!((make().last(), tokens.last()), (Some(a), Some(b)) if std::ptr::eq(a, *b)) {
+            unlike.push("last");
+        }
+        let mut iter = make();
+        let mut parts: Vec<&Token> = iter.by_ref().take(n / 2).collect();
+        let (low, high) = iter.size_hint();
+        if low > n - n / 2 || high.map_or(false, |high| high < n - n / 2) {
+            unlike.push("size_hint half way");
+        }
+        iter.for_each(|token| parts.push(token));
+        if !same(&parts) {
+            unlike.push("take, then for_each");
+        }
+        let mut iter = make();
+        let at = n / 3;
+        let nth = iter.nth(at);
+        let rest: Vec<&Token> = iter.collect();
+        if !nth.map_or(false, |token| std::ptr::eq(token, tokens[at])) || rest.len() != n - at - 1 {
+            unlike.push("nth");
+        }
+    }
+    (Some(tokens.into_iter().cloned().collect()), after, unlike)
 }
 
 fn range((start, end): (&Position, &Position)) -> Option<(Position, Position)> {
@@ -450,35 +492,38 @@ fn range((start, end): (&Position, &Position)) -> Option<(Position, Position)> {
 }
 
 fn spans_of_identifier(identifier: &Identifier, out: &mut Vec<Span>) {
-    let (tokens, after_end) = drain(identifier.tokens());
+    let (tokens, after_end, unlike) = drain(|| identifier.tokens());
     out.push(Span {
         source: "Identifier",
         tree: export_identifier(identifier),
         tokens,
         after_end,
+        unlike,
         range: range(identifier.range()),
         operator: None,
     });
 }
 
 fn spans_of_variable(variable: &VariableAccess, out: &mut Vec<Span>) {
-    let (tokens, after_end) = drain(variable.tokens());
+    let (tokens, after_end, unlike) = drain(|| variable.tokens());
     out.push(Span {
         source: "VariableAccess",
         tree: export_variable(variable),
         tokens,
         after_end,
+        unlike,
         range: range(variable.range()),
         operator: None,
     });
     spans_of_identifier(&variable.identifier, out);
     for slot in variable.accesses.iter() {
-        let (tokens, after_end) = drain(slot.tokens());
+        let (tokens, after_end, unlike) = drain(|| slot.tokens());
         out.push(Span {
             source: "VariableAccessSlot",
             tree: export_slot(slot),
             tokens,
             after_end,
+            unlike,
             range: None,
             operator: None,
         });
@@ -488,23 +533,25 @@ fn spans_of_variable(variable: &VariableAccess, out: &mut Vec<Span>) {
 
 fn spans_of_expression(expression: &ASTExpression, out: &mut Vec<Span>) {
     let tree = export_expression(expression);
-    let (tokens, after_end) = drain(expression.tokens());
+    let (tokens, after_end, unlike) = drain(|| expression.tokens());
     out.push(Span {
         source: "ASTExpression",
         tree: tree.clone(),
         tokens,
         after_end,
+        unlike,
         range: range(expression.range()),
         operator: None,
     });
     match expression {
         ASTExpression::Value(value) => {
-            let (tokens, after_end) = drain(value.tokens());
+            let (tokens, after_end, unlike) = drain(|| value.tokens());
             out.push(Span {
                 source: "ASTExpressionValue",
                 tree,
                 tokens,
                 after_end,
+                unlike,
                 range: range(value.range()),
                 operator: None,
             });
@@ -513,12 +560,13 @@ fn spans_of_expression(expression: &ASTExpression, out: &mut Vec<Span>) {
             }
         }
         ASTExpression::UnaryOperation(op) => {
-            let (tokens, after_end) = drain(op.tokens());
+            let (tokens, after_end, unlike) = drain(|| op.tokens());
             out.push(Span {
                 source: "UnaryOperation",
                 tree,
                 tokens,
                 after_end,
+                unlike,
                 range: None,
                 operator: Some((
                     op.operator.token().clone(),
@@ -528,12 +576,13 @@ fn spans_of_expression(expression: &ASTExpression, out: &mut Vec<Span>) {
             spans_of_expression(&op.expression, out);
         }
         ASTExpression::BinaryOperation(op) => {
-            let (tokens, after_end) = drain(op.tokens());
+            let (tokens, after_end, unlike) = drain(|| op.tokens());
             out.push(Span {
                 source: "BinaryOperation",
                 tree,
                 tokens,
                 after_end,
+                unlike,
                 range: None,
                 operator: Some((
                     op.operator.token().clone(),
@@ -544,12 +593,13 @@ fn spans_of_expression(expression: &ASTExpression, out: &mut Vec<Span>) {
             spans_of_expression(&op.right, out);
         }
         ASTExpression::NaryOperation(op) => {
-            let (tokens, after_end) = drain(op.tokens());
+            let (tokens, after_end, unlike) = drain(|| op.tokens());
             out.push(Span {
                 source: "NaryOperation",
                 tree,
                 tokens,
                 after_end,
+                unlike,
                 range: None,
                 operator: Some((
                     op.operator.token().clone(),
@@ -577,12 +627,13 @@ fn spans_of_block(block: &ASTBlock, out: &mut Vec<Span>) {
             Node::ASTError(_) | Node::Hai(_) | Node::KThxBye(_) | Node::Gtfo(_) => {}
             Node::Expression(e) => spans_of_expression(e, out),
             Node::VariableAssignment(s) => {
-                let (tokens, after_end) = drain(s.tokens());
+                let (tokens, after_end, unlike) = drain(|| s.tokens());
                 out.push(Span {
                     source: "VariableAssignment",
                     tree: export_assignment(s),
                     tokens,
                     after_end,
+                    unlike,
                     range: range(s.range()),
                     operator: None,
                 });
@@ -599,6 +650,7 @@ fn spans_of_block(block: &ASTBlock, out: &mut Vec<Span>) {
                         tree: Tree::new(type_kind(t)).tok("token", type_token(t)),
                         tokens: None,
                         after_end: Vec::new(),
+                        unlike: Vec::new(),
                         range: None,
                         operator: Some((t.token().clone(), t.clone().into_token())),
                     }),
-- 
2.43.0

