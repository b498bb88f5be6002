From d22dc0d9e74ff7c82e0cd2edfe54f6525a26694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 01/31] fix: report hex literals as an invalid token instead of
 panicking

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..a058ea0 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported yet, skip the literal and report it as an invalid token
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From ad91f7aec77d358e93ce01e1d1506d0a9e2130e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 02/31] fix: report a dollar argument whose number overflows as
 an invalid token

---
 src/lexer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a058ea0..0f28afe 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -333,14 +333,17 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
-                        self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v = Some(0usize);
+                        while let Some(d) = self.chars.peek().and_then(|(_, c)| c.to_digit(10)) {
+                            v = v
+                                .and_then(|v| v.checked_mul(10))
+                                .and_then(|v| v.checked_add(d as usize));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From 53164e7b18bb5a84e1f3b818f1179ff89d8de510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 03/31] fix: do not loop forever when DELIMITER is followed by
 end of input

---
 src/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..af5fd16 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,11 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if t == Token::Eof {
+                parser.expected_error("delimiter");
+                return ans;
+            }
+
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From d318aca8808820f6d8c3feef38008067b1e15473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/31] fix: let AND bind tighter than XOR, and XOR tighter
 than OR

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..a2d3489 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::And => 140,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::Or => 160,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 696e84b79946385e650a2d3a5ae9533a1e0bb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 05/31] fix: decode quotes and backslash escapes in string
 literals without losing characters

---
 src/parser.rs | 80 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..1776a57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,44 +36,49 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
+/// Decode the content of a string literal surrounded by `quote`
+///
+/// A doubled quote stands for a single one. Backslash escapes are only decoded when
+/// `backslash_escapes` is set, otherwise they are left as they are written.
+fn decode_quoted_string(s: &str, quote: char, backslash_escapes: bool) -> Cow<'_, str> {
+    if !s.contains(quote) && !s.contains('\\') {
+        return s.into();
+    }
+    let mut r = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' if backslash_escapes => match chars.next() {
+                Some('0') => r.push('\0'),
+                Some('b') => r.push('\x08'),
+                Some('n') => r.push('\n'),
+                Some('r') => r.push('\r'),
+                Some('t') => r.push('\t'),
+                Some('Z') => r.push('\x1a'),
+                Some(c @ ('%' | '_')) => r.extend(['\\', c]),
                 Some(c) => r.push(c),
+                None => r.push('\\'),
+            },
+            '\\' => {
+                r.push('\\');
+                r.extend(chars.next());
             }
+            c if c == quote => {
+                chars.next();
+                r.push(quote);
+            }
+            c => r.push(c),
         }
-        r.into()
     }
+    r.into()
 }
 
-pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
-    }
+pub(crate) fn decode_single_quoted_string(s: &str, backslash_escapes: bool) -> Cow<'_, str> {
+    decode_quoted_string(s, '\'', backslash_escapes)
+}
+
+pub(crate) fn decode_double_quoted_string(s: &str, backslash_escapes: bool) -> Cow<'_, str> {
+    decode_quoted_string(s, '"', backslash_escapes)
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
@@ -327,18 +332,19 @@ impl<'a, 'b> Parser<'a, 'b> {
     }
 
     pub(crate) fn consume_string(&mut self) -> Result<SString<'a>, ParseError> {
+        let backslash_escapes = self.options.dialect.is_maria();
         let (mut a, mut b) = match &self.token {
             Token::SingleQuotedString(v) => {
                 let v = *v;
                 let span = self.span.clone();
                 self.next();
-                (decode_single_quoted_string(v), span)
+                (decode_single_quoted_string(v, backslash_escapes), span)
             }
             Token::DoubleQuotedString(v) => {
                 let v = *v;
                 let span = self.span.clone();
                 self.next();
-                (decode_double_quoted_string(v), span)
+                (decode_double_quoted_string(v, backslash_escapes), span)
             }
             _ => self.expected_failure("string")?,
         };
@@ -346,12 +352,14 @@ impl<'a, 'b> Parser<'a, 'b> {
             match self.token {
                 Token::SingleQuotedString(v) => {
                     b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_single_quoted_string(v).as_ref());
+                    a.to_mut()
+                        .push_str(&decode_single_quoted_string(v, backslash_escapes));
                     self.next();
                 }
                 Token::DoubleQuotedString(v) => {
                     b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_double_quoted_string(v).as_ref());
+                    a.to_mut()
+                        .push_str(&decode_double_quoted_string(v, backslash_escapes));
                     self.next();
                 }
                 _ => break,
-- 
2.43.0


From 528a0fc6000f21515fffe0a4dab5fa7e7d1f09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 06/31] fix: report COLLATE on a column as a collation and not
 as a character set

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 1da29b90605c94a222a947f7a9faf992dd15ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 07/31] fix: report ADD UNIQUE and ADD SPATIAL indexes with
 their own index type

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..d39d925 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 9ee8b4fcd94f4d3b304421df1206755ca35b3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 08/31] fix: parse the NO ACTION and SET DEFAULT foreign key
 actions

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index d39d925..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From 49b343a885016b5e6abcb1d68b63477aadd65994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/31] fix: do not let a failing trigger body change how later
 statements are parsed

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From f95cd938b8273ff3bd92627b107a7ee76ecd2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 10/31] fix: report unquoted identifiers as warnings everywhere

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1776a57..c1b649a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -253,7 +253,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From f336cda0f7ef22209ed8f4d0eb128f8da1157b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 11/31] fix: do not warn about capital keywords that contain
 '_' or digits

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c1b649a..b6f0bc4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -276,7 +276,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From 3a6ff105961cb880e35beff259c0fcb34da74325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/31] fix: let END terminate the statement lists of IF, CASE
 and DO outside triggers

---
 src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index af5fd16..e37b2ad 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,7 +96,9 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
+    parser.permit_compound_statements = old_permit;
     parser.delimiter = old_delimiter;
     r
 }
-- 
2.43.0


From 543b5b8c5b1768b091fab30e4312175c26564d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 13/31] fix: parse BEGIN ... END as a compound statement in the
 body of a function

---
 src/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index f52191d..2fdba42 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -699,7 +699,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
-- 
2.43.0


From 6eb6870988ffd08dcaf2f2df3f08456a6b78075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 14/31] fix: accept a function without parameters

---
 src/create.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/create.rs b/src/create.rs
index 2fdba42..1d49301 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -588,6 +588,9 @@ fn parse_create_function<'a>(
     let mut params = Vec::new();
     parser.consume_token(Token::LParen)?;
     parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
+        if matches!(parser.token, Token::RParen) {
+            return Ok(());
+        }
         loop {
             let direction = match &parser.token {
                 Token::Ident(_, Keyword::IN) => {
-- 
2.43.0


From fdc56412151cbf14b0a5634b760b26662923d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 15/31] fix: accept the parentheses around the columns of a
 USING join

---
 src/select.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index fa4da15..012e523 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -446,6 +446,7 @@ pub(crate) fn parse_table_reference<'a>(
             }
             Token::Ident(_, Keyword::USING) => {
                 let using = parser.consume_keyword(Keyword::USING)?;
+                let l_paren = parser.skip_token(Token::LParen);
                 let mut join_column_list = Vec::new();
                 loop {
                     join_column_list.push(parser.consume_plain_identifier()?);
@@ -453,6 +454,9 @@ pub(crate) fn parse_table_reference<'a>(
                         break;
                     }
                 }
+                if l_paren.is_some() {
+                    parser.consume_token(Token::RParen)?;
+                }
                 Some(JoinSpecification::Using(join_column_list, using))
             }
             _ => None,
-- 
2.43.0


From 1c5959a3a045ab173dd575b992030287a8aba9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 16/31] fix: do not read the column property after DEFAULT as
 part of the default value

---
 src/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index a2d3489..b37d3fc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1077,6 +1077,12 @@ pub(crate) fn parse_expression<'a>(
 ) -> Result<Expression<'a>, ParseError> {
     let mut r = Reducer { stack: Vec::new() };
     loop {
+        if inner
+            && matches!(r.stack.last(), Some(ReduceMember::Expression(_)))
+            && parser.token != Token::Ampersand
+        {
+            break;
+        }
         let e = match parser.token.clone() {
             Token::Ident(_, Keyword::OR) | Token::DoublePipe if !inner => {
                 r.shift_binop(parser.consume(), BinaryOperator::Or)
-- 
2.43.0


From 5b546e6d3c57db32db5f8f86d765805900def090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 17/31] fix: include CASCADE and the row locking clause in the
 span of the statement

---
 src/drop.rs   | 1 +
 src/select.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
diff --git a/src/select.rs b/src/select.rs
index 012e523..4f9ec4d 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -655,6 +655,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From b5a44c319e2a45a25a6cb26a17b852d3c4bb659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 18/31] fix: name the shift tokens the right way around in
 messages

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 0f28afe..a456e72 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -110,8 +110,8 @@ impl<'a> Token<'a> {
             Token::RParen => "')'",
             Token::SemiColon => "';'",
             Token::Sharp => "'#'",
-            Token::ShiftLeft => "'>>'",
-            Token::ShiftRight => "'<<'",
+            Token::ShiftLeft => "'<<'",
+            Token::ShiftRight => "'>>'",
             Token::DoubleDollar => "'$$'",
             Token::DollarArg(v) if *v == 1 => "'$1'",
             Token::DollarArg(v) if *v == 2 => "'$2'",
-- 
2.43.0


From 9c90b4cda3718b657891668f229d2705effadae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 19/31] fix: give BEGIN ... END blocks and DO statements a span
 instead of panicking on empty ones

---
 src/statement.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index e37b2ad..075e8ca 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -122,8 +122,10 @@ fn parse_commit(parser: &mut Parser<'_, '_>) -> Result<Span, ParseError> {
     parser.consume_keyword(Keyword::COMMIT)
 }
 
-fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, ParseError> {
-    parser.consume_keyword(Keyword::BEGIN)?;
+fn parse_block<'a>(
+    parser: &mut Parser<'a, '_>,
+) -> Result<(Vec<Statement<'a>>, Span), ParseError> {
+    let begin_span = parser.consume_keyword(Keyword::BEGIN)?;
     let mut ans = Vec::new();
     parser.recovered(
         "'END' | 'EXCEPTION'",
@@ -143,8 +145,8 @@ fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, Pa
             parser.consume_token(Token::SemiColon)?;
         }
     }
-    parser.consume_keyword(Keyword::END)?;
-    Ok(ans)
+    let end_span = parser.consume_keyword(Keyword::END)?;
+    Ok((ans, begin_span.join_span(&end_span)))
 }
 
 /// Condition in if statement
@@ -407,7 +409,8 @@ pub enum Statement<'a> {
     Set(Set<'a>),
     Signal(Signal<'a>),
     AlterTable(AlterTable<'a>),
-    Block(Vec<Statement<'a>>), //TODO we should include begin and end
+    /// Statements of a compound statement, and span from "BEGIN" to "END"
+    Block(Vec<Statement<'a>>, Span),
     Begin(Span),
     End(Span),
     Commit(Span),
@@ -420,7 +423,8 @@ pub enum Statement<'a> {
     Copy(Copy<'a>),
     Stdin(&'a str, Span),
     CreateTypeEnum(CreateTypeEnum<'a>),
-    Do(Vec<Statement<'a>>),
+    /// Statements of an anonymous code block, and span of the whole statement
+    Do(Vec<Statement<'a>>, Span),
     TruncateTable(TruncateTable<'a>),
     RenameTable(RenameTable<'a>),
     WithQuery(WithQuery<'a>),
@@ -450,7 +454,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            Statement::Block(_, s) => s.clone(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -462,7 +466,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(_, s) => s.clone(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
@@ -496,7 +500,8 @@ pub(crate) fn parse_statement<'a>(
         Token::Ident(_, Keyword::SET) => Some(Statement::Set(parse_set(parser)?)),
         Token::Ident(_, Keyword::SIGNAL) => Some(Statement::Signal(parse_signal(parser)?)),
         Token::Ident(_, Keyword::BEGIN) => Some(if parser.permit_compound_statements {
-            Statement::Block(parse_block(parser)?)
+            let (block, span) = parse_block(parser)?;
+            Statement::Block(block, span)
         } else {
             Statement::Begin(parse_begin(parser)?)
         }),
@@ -523,11 +528,11 @@ pub(crate) fn parse_statement<'a>(
 }
 
 pub(crate) fn parse_do<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
-    parser.consume_keyword(Keyword::DO)?;
-    parser.consume_token(Token::DoubleDollar)?;
-    let block = parse_block(parser)?;
+    let do_span = parser.consume_keyword(Keyword::DO)?;
     parser.consume_token(Token::DoubleDollar)?;
-    Ok(Statement::Do(block))
+    let (block, _) = parse_block(parser)?;
+    let end_span = parser.consume_token(Token::DoubleDollar)?;
+    Ok(Statement::Do(block, do_span.join_span(&end_span)))
 }
 
 /// When part of case statement
-- 
2.43.0


From f55a29d810f57af338c93e543b6c272c23b769c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 20/31] Add a token counter for runtime monitoring behind
 cfg(sqlparse_verif)

---
 src/lexer.rs |  2 ++
 src/lib.rs   |  3 +++
 src/verif.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lexer.rs b/src/lexer.rs
index a456e72..b81ed7f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -220,6 +220,8 @@ impl<'a> Lexer<'a> {
     }
 
     pub fn next_token(&mut self) -> (Token<'a>, Span) {
+        #[cfg(sqlparse_verif)]
+        crate::verif::step();
         loop {
             let (start, c) = match self.chars.next() {
                 Some(v) => v,
diff --git a/src/lib.rs b/src/lib.rs
index 493558c..1a61ae7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,6 +40,7 @@
 
 #![no_std]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 extern crate alloc;
 
 use alloc::vec::Vec;
@@ -65,6 +66,8 @@ mod sstring;
 mod statement;
 mod truncate;
 mod update;
+#[cfg(sqlparse_verif)]
+pub mod verif;
 mod with_query;
 
 pub use data_type::{DataType, DataTypeProperty, Type};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..3aaa8a2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,42 @@
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+// http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Step counter for runtime monitoring, only built with `--cfg sqlparse_verif`
+
+extern crate std;
+
+use core::cell::Cell;
+
+std::thread_local! {
+    static STEPS: Cell<u64> = const { Cell::new(0) };
+    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Set the number of tokens that may be read on this thread, and reset the counter
+pub fn arm(budget: u64) {
+    STEPS.with(|s| s.set(0));
+    BUDGET.with(|b| b.set(budget));
+}
+
+/// Number of tokens read on this thread since the last call of `arm`
+pub fn steps() -> u64 {
+    STEPS.with(|s| s.get())
+}
+
+/// Count one token
+pub(crate) fn step() {
+    let n = steps() + 1;
+    STEPS.with(|s| s.set(n));
+    if n > BUDGET.with(|b| b.get()) {
+        panic!("verif: token budget exceeded");
+    }
+}
-- 
2.43.0


From b0db0a68a373d9b3c35fde601efd0ddd79c139f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 21/31] fix: attach ORDER BY and LIMIT after the last part of a
 union to the union

---
 src/statement.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 075e8ca..1621cb0 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -779,6 +779,7 @@ pub(crate) fn parse_compound_query<'a>(
         return Ok(q);
     };
     let mut with = Vec::new();
+    let mut parenthesized;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
         let union_type = match &parser.token {
@@ -788,6 +789,7 @@ pub(crate) fn parse_compound_query<'a>(
             }
             _ => UnionType::Default,
         };
+        parenthesized = matches!(parser.token, Token::LParen);
         let union_statement = Box::new(parse_compound_query_bottom(parser)?);
         with.push(UnionWith {
             union_span,
@@ -799,6 +801,13 @@ pub(crate) fn parse_compound_query<'a>(
         }
     }
 
+    // ORDER BY and LIMIT after the last part belong to the union, unless it is parenthesized
+    let last: Option<&mut UnionWith> = with.last_mut();
+    let (last_order_by, last_limit) = match last.map(|v| v.union_statement.as_mut()) {
+        Some(Statement::Select(s)) if !parenthesized => (s.order_by.take(), s.limit.take()),
+        _ => (None, None),
+    };
+
     let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
@@ -816,7 +825,7 @@ pub(crate) fn parse_compound_query<'a>(
         }
         Some((span, order))
     } else {
-        None
+        last_order_by
     };
 
     let limit = if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
@@ -833,7 +842,7 @@ pub(crate) fn parse_compound_query<'a>(
             _ => Some((span, None, n)),
         }
     } else {
-        None
+        last_limit
     };
 
     Ok(Statement::Union(Union {
-- 
2.43.0


From 002b1005ec9a8d03df1fe62b4d9ddd6f176cea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 22/31] fix: include NATURAL in the span of NATURAL LEFT and
 NATURAL RIGHT joins

---
 src/select.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 4f9ec4d..620f3c2 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -401,7 +401,8 @@ pub(crate) fn parse_table_reference<'a>(
                             .join_span(&parser.consume_keywords(&[Keyword::INNER, Keyword::JOIN])?),
                     ),
                     Token::Ident(_, Keyword::LEFT) => {
-                        let left = parser.consume_keyword(Keyword::LEFT)?;
+                        let left = natural
+                            .join_span(&parser.consume_keyword(Keyword::LEFT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
                                 left.join_span(&outer)
@@ -414,7 +415,8 @@ pub(crate) fn parse_table_reference<'a>(
                         }
                     }
                     Token::Ident(_, Keyword::RIGHT) => {
-                        let right = parser.consume_keyword(Keyword::RIGHT)?;
+                        let right = natural
+                            .join_span(&parser.consume_keyword(Keyword::RIGHT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
                                 right
-- 
2.43.0


From 829743d9d4a93e6bb8e38df8e04da439b1cfbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 23/31] fix: accept calls of the INSERT and REPEAT functions

---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index b37d3fc..1bddf4a 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1461,7 +1461,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::LEFT | Keyword::INSERT | Keyword::REPEAT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0


From bdf03c9543bdd74368c0ff7432f7e84bf0c7e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 24/31] fix: report backtick quoted identifiers in expressions
 for postgresql

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b6f0bc4..dc22af6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -234,6 +234,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From 9736c443c42fdb4745ab3665eea1ecbdd4ce050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 25/31] fix: accept RIGHT JOIN after the condition of an
 earlier join

---
 src/expression.rs | 2 +-
 src/keywords.rs   | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 1bddf4a..2a0e6b2 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1461,7 +1461,7 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT | Keyword::INSERT | Keyword::REPEAT)
+            Token::Ident(_, Keyword::LEFT | Keyword::RIGHT | Keyword::INSERT | Keyword::REPEAT)
                 if matches!(parser.peek(), Token::LParen) =>
             {
                 let i = parser.token.clone();
diff --git a/src/keywords.rs b/src/keywords.rs
index 2297295..54807da 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -1216,7 +1216,6 @@ IF
 LOCALTIME
 LOCALTIMESTAMP
 REPLACE
-RIGHT
 UTC_DATE
 UTC_TIME
 UTC_TIMESTAMP
-- 
2.43.0


From 7a463dd0f48e45cb701b051ac590e6f89b41b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 26/31] fix: report TEMPORARY when dropping something that is
 not a table or view

---
 src/drop.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drop.rs b/src/drop.rs
index 53c2e7c..392ada7 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -339,6 +339,11 @@ impl<'a> Spanned for DropTrigger<'a> {
 pub(crate) fn parse_drop<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
     let drop_span = parser.consume_keyword(Keyword::DROP)?;
     let temporary = parser.skip_keyword(Keyword::TEMPORARY);
+    if let Some(span) = &temporary {
+        if !matches!(parser.token, Token::Ident(_, Keyword::TABLE | Keyword::VIEW)) {
+            parser.err("TEMPORARY not supported here", span);
+        }
+    }
     match &parser.token {
         Token::Ident(_, Keyword::TABLE) => {
             let table_span = parser.consume_keyword(Keyword::TABLE)?;
-- 
2.43.0


From ac6c7f565a24902ddf6f56b8b0e6c99df84ffba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 27/31] fix: read COMMENT and NOT DETERMINISTIC after a return
 type as characteristics of the function

---
 src/data_type.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..b59f4c3 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -390,6 +390,14 @@ pub(crate) fn parse_data_type<'a>(
     };
     let mut properties = Vec::new();
     loop {
+        // COMMENT and NOT DETERMINISTIC after a return type belong to the function
+        if no_as
+            && (matches!(parser.token, Token::Ident(_, Keyword::COMMENT))
+                || matches!(parser.token, Token::Ident(_, Keyword::NOT))
+                    && !matches!(parser.peek(), Token::Ident(_, Keyword::NULL)))
+        {
+            break;
+        }
         match parser.token {
             Token::Ident(_, Keyword::SIGNED) => properties.push(DataTypeProperty::Signed(
                 parser.consume_keyword(Keyword::SIGNED)?,
-- 
2.43.0


From 651c5b1beed8728792be40120a96ce79cefed3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 28/31] fix: let a UNION after a sub-query in FROM continue the
 outer query

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 620f3c2..0f1a623 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -19,7 +19,7 @@ use crate::{
     lexer::Token,
     parser::{ParseError, Parser},
     span::OptSpanned,
-    statement::parse_compound_query,
+    statement::parse_compound_query_bottom,
     Identifier, Span, Spanned, Statement,
 };
 
@@ -247,7 +247,7 @@ pub(crate) fn parse_table_reference_inner<'a>(
 
     match &parser.token {
         Token::Ident(_, Keyword::SELECT) | Token::LParen => {
-            let query = parse_compound_query(parser)?;
+            let query = parse_compound_query_bottom(parser)?;
             let as_span = parser.skip_keyword(Keyword::AS);
             let as_ = if as_span.is_some()
                 || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
-- 
2.43.0


From 99f92b709f04b26feb758ae166c84003fbff37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 29/31] fix: do not drop an ORDER BY or LIMIT of a union that
 is followed by another one

---
 src/statement.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 1621cb0..31f181a 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -808,7 +808,9 @@ pub(crate) fn parse_compound_query<'a>(
         _ => (None, None),
     };
 
-    let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
+    let order_by = if last_order_by.is_some() || last_limit.is_some() {
+        last_order_by
+    } else if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
         loop {
@@ -825,10 +827,12 @@ pub(crate) fn parse_compound_query<'a>(
         }
         Some((span, order))
     } else {
-        last_order_by
+        None
     };
 
-    let limit = if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
+    let limit = if last_limit.is_some() {
+        last_limit
+    } else if let Some(span) = parser.skip_keyword(Keyword::LIMIT) {
         let n = parse_expression(parser, true)?;
         match parser.token {
             Token::Comma => {
@@ -842,7 +846,7 @@ pub(crate) fn parse_compound_query<'a>(
             _ => Some((span, None, n)),
         }
     } else {
-        last_limit
+        None
     };
 
     Ok(Statement::Union(Union {
-- 
2.43.0


From 522281239fc11e02842b771ff4026969ec8af991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 30/31] fix: do not skip the delimiter of the script when
 recovering inside of a compound statement

---
 src/parser.rs    | 7 ++++++-
 src/statement.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dc22af6..fdf538e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) issues: &'b mut Issues<'a>,
     pub(crate) arg: usize,
     pub(crate) delimiter: Token<'a>,
+    /// Delimiter of the outermost statements, no recovery may skip it
+    pub(crate) script_delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
 }
@@ -93,6 +95,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             issues,
             arg: 0,
             delimiter: Token::SemiColon,
+            script_delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
         }
@@ -108,7 +111,9 @@ impl<'a, 'b> Parser<'a, 'b> {
             match &self.token {
                 t if brackets.is_empty() && success(t) => return Ok(()),
                 Token::Eof => return Err(ParseError::Unrecovered),
-                t if t == &self.delimiter => return Err(ParseError::Unrecovered),
+                t if t == &self.delimiter || t == &self.script_delimiter => {
+                    return Err(ParseError::Unrecovered)
+                }
                 t if brackets.is_empty() && fail(t) => return Err(ParseError::Unrecovered),
                 Token::LParen => {
                     brackets.push(Token::LParen);
diff --git a/src/statement.rs b/src/statement.rs
index 31f181a..7aba66f 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -881,7 +881,8 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-            parser.delimiter = t;
+            parser.delimiter = t.clone();
+            parser.script_delimiter = t;
             parser.next();
             continue;
         }
-- 
2.43.0


From 9a24387241320ff46f8f30010386781a66805c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 31/31] fix: the message for a missing query names SELECT

---
 src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statement.rs b/src/statement.rs
index 7aba66f..5acb75a 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -681,7 +681,7 @@ pub(crate) fn parse_compound_query_bottom<'a>(
             Ok(s.unwrap_or(Statement::Invalid(lp)))
         }
         Token::Ident(_, Keyword::SELECT) => Ok(Statement::Select(parse_select(parser)?)),
-        _ => parser.expected_failure("'SELECET' or '('")?,
+        _ => parser.expected_failure("'SELECT' or '('")?,
     }
 }
 
-- 
2.43.0

