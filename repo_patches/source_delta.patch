From 3009d2236c88a479aa2e244ba09455f3719ad78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 1/9] fix: report a syntax error instead of panicking on tokens
 the grammar does not know

---
 .../parser-generator/templates/parser_template.rs   | 11 +++++++----
 crates/postgresql-cst-parser/src/cst.rs             | 13 +++++++++++--
 crates/postgresql-cst-parser/src/parser.rs          | 11 +++++++----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..26a2b4a 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,13 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+/// Returns `None` for tokens that the lexer can produce but that do not appear in the grammar (e.g. `{`, `..`).
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {{token_to_component_id}
+    _ => return None,
+    };
+
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..dd884f0 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -177,7 +177,14 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        // Tokens that do not appear in the grammar can never be accepted
+        let Some(cid) = token_kind_to_component_id(&token.kind) else {
+            return Err(ParserError::ParseError {
+                message: format!("syntax error at byte position {}", token.start_byte_pos),
+                start_byte_pos: token.start_byte_pos,
+                end_byte_pos: token.end_byte_pos,
+            });
+        };
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +330,9 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let Some(cid) = token_kind_to_component_id(&token.kind) else {
+            continue;
+        };
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..cef27b1 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,9 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+/// Returns `None` for tokens that the lexer can produce but that do not appear in the grammar (e.g. `{`, `..`).
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33571,10 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        _ => return None,
+    };
+
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From 16a5f3d90ce24f2d1d71b13fb827fe9474e14323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 2/9] fix: do not panic on binary integer literals

---
 .../parser-generator/src/parser_generator/lexer/lexer_ported.rs  | 1 +
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
-- 
2.43.0


From c0885da38a6e86dc6922b53ec3baf105d8737d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 3/9] fix: report an error instead of panicking on a too large
 parameter number

---
 crates/lexer-generator/resources/scan.l              |  5 ++++-
 .../src/parser_generator/lexer/generated.rs          | 12 ++++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs  | 12 ++++++++----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..09e6c56 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1483,7 +1483,10 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					let Ok(val) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+						yyerror!("parameter number too large");
+					};
+					self.yylval = Yylval::I(val);
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..167be6e 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(val) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(val);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(val) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(val);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..167be6e 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(val) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(val);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(val) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(val);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
-- 
2.43.0


From d71f9943fe7c7bc7d98519f156f39e20b63d8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 4/9] fix: skip the whole backslash-x prefix when decoding
 hexadecimal escapes

---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 09e6c56..aeda62e 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 167be6e..7b4d309 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 167be6e..7b4d309 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
-- 
2.43.0


From 346ea4b7fbb44d7d38b1a9f5e4b8e71f6c6a09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 5/9] fix: report out of range Unicode escapes instead of
 panicking

---
 crates/lexer-generator/resources/scan.l                |  5 ++++-
 .../src/parser_generator/lexer/generated.rs            | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs    | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index aeda62e..ccf5104 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						let Some(c) = char::from_u32(c) else {
+							yyerror!("invalid Unicode escape value");
+						};
+						self.addunicode(c)?;
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 7b4d309..101b437 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 7b4d309..101b437 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
-- 
2.43.0


From 7c75d026202650569307d671b46a292a8f96e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 6/9] fix: do not split a multibyte character at the end of a
 token match

---
 crates/lexer-generator/templates/lex_template.rs         | 4 ++--
 .../src/parser_generator/lexer/generated.rs              | 4 ++--
 .../parser-generator/src/parser_generator/lexer/util.rs  | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer/generated.rs      | 4 ++--
 crates/postgresql-cst-parser/src/lexer/util.rs           | 9 +++++++++
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/lexer-generator/templates/lex_template.rs b/crates/lexer-generator/templates/lex_template.rs
index 994020b..05cfe72 100644
--- a/crates/lexer-generator/templates/lex_template.rs
+++ b/crates/lexer-generator/templates/lex_template.rs
@@ -68,7 +68,7 @@ impl Lexer {
         loop {
             let (match_len, pattern_index) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match pattern_index {{pattern_actions_by_index}}
@@ -81,7 +81,7 @@ impl Lexer {
         loop {
             let (match_len, kind) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match kind {{actions}}
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 101b437..47f4cf6 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -3796,7 +3796,7 @@ impl Lexer {
         loop {
             let (match_len, pattern_index) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match pattern_index {
@@ -5144,7 +5144,7 @@ impl Lexer {
         loop {
             let (match_len, kind) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match kind {
diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..b83607d 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -59,6 +59,15 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// The patterns are matched byte by byte, so a match can end in the middle of a multibyte character.
+    /// Extend such a match to the end of the character.
+    pub fn ceil_char_boundary(&self, match_len: usize) -> usize {
+        let s = &self.input[self.index_bytes..];
+        (match_len..s.len())
+            .find(|&i| s.is_char_boundary(i))
+            .unwrap_or(s.len())
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 101b437..47f4cf6 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -3796,7 +3796,7 @@ impl Lexer {
         loop {
             let (match_len, pattern_index) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match pattern_index {
@@ -5144,7 +5144,7 @@ impl Lexer {
         loop {
             let (match_len, kind) = self.find_match_len();
 
-            self.yyleng = match_len;
+            self.yyleng = self.ceil_char_boundary(match_len);
             let yytext = self.yytext();
 
             match kind {
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..b83607d 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -59,6 +59,15 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// The patterns are matched byte by byte, so a match can end in the middle of a multibyte character.
+    /// Extend such a match to the end of the character.
+    pub fn ceil_char_boundary(&self, match_len: usize) -> usize {
+        let s = &self.input[self.index_bytes..];
+        (match_len..s.len())
+            .find(|&i| s.is_char_boundary(i))
+            .unwrap_or(s.len())
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
-- 
2.43.0


From 2e489063b5583644e9e9daf51fdb6d7a55efd6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 7/9] fix: reject null bytes instead of ignoring the rest of
 the input

---
 crates/parser-generator/src/parser_generator/lexer.rs | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..26dfd01 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,15 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The lexer treats a null byte as the end of the input, and PostgreSQL does not accept it anywhere.
+    if let Some(pos) = input.find('\0') {
+        return Err(ParserError::ParseError {
+            message: "invalid byte sequence: 0x00".to_string(),
+            start_byte_pos: pos,
+            end_byte_pos: pos + 1,
+        });
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..26dfd01 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,15 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The lexer treats a null byte as the end of the input, and PostgreSQL does not accept it anywhere.
+    if let Some(pos) = input.find('\0') {
+        return Err(ParserError::ParseError {
+            message: "invalid byte sequence: 0x00".to_string(),
+            start_byte_pos: pos,
+            end_byte_pos: pos + 1,
+        });
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From 7ef5e050da07718324d6bcb10c45316d83eb65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 8/9] fix: fail when rustfmt fails on a generated file

---
 crates/lexer-generator/src/lexer_generator.rs   | 12 +++++++++++-
 crates/parser-generator/src/parser_generator.rs | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/lexer-generator/src/lexer_generator.rs b/crates/lexer-generator/src/lexer_generator.rs
index 090d031..5c40e92 100644
--- a/crates/lexer-generator/src/lexer_generator.rs
+++ b/crates/lexer-generator/src/lexer_generator.rs
@@ -256,6 +256,16 @@ fn construct_dfa(flex_file: &FlexFile) -> (String, String) {
     (table_defs.join("\n"), state_id_to_dfa_table_defs.join("\n"))
 }
 
+/// Format a generated file in place
+fn format_source_file(path: &str) {
+    let output = Command::new("rustfmt").arg(path).output().unwrap();
+    assert!(
+        output.status.success(),
+        "rustfmt failed on {path}: {}",
+        String::from_utf8_lossy(&output.stderr)
+    );
+}
+
 /// Generate Lexer based on scan.l
 pub fn generate() {
     let flex_file = parse_flex_file(include_str!("../resources/scan.l"));
@@ -297,6 +307,6 @@ pub fn generate() {
 
     for path in paths {
         std::fs::write(path, &res).unwrap();
-        Command::new("rustfmt").arg(path).output().unwrap();
+        format_source_file(path);
     }
 }
diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 194ee80..2e1090c 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -233,6 +233,16 @@ fn compress_goto_table(
     }
 }
 
+/// Format a generated file in place
+fn format_source_file(path: &str) {
+    let output = Command::new("rustfmt").arg(path).output().unwrap();
+    assert!(
+        output.status.success(),
+        "rustfmt failed on {path}: {}",
+        String::from_utf8_lossy(&output.stderr)
+    );
+}
+
 fn generate_parser_source_code(
     bison: &Bison,
     lalr: &Lalr,
@@ -361,7 +371,7 @@ fn generate_parser_source_code(
     let paths = ["./crates/postgresql-cst-parser/src/parser.rs"];
     for path in paths {
         std::fs::write(path, &parser_template).unwrap();
-        let _ = Command::new("rustfmt").arg(path).output();
+        format_source_file(path);
     }
 }
 
@@ -396,7 +406,7 @@ fn generate_syntax_kinds_source_code(
 
     let path = "./crates/postgresql-cst-parser/src/syntax_kind.rs";
     std::fs::write(path, source).unwrap();
-    let _ = Command::new("rustfmt").arg(path).output();
+    format_source_file(path);
 }
 
 fn write_file(bison: &Bison, lalr: &Lalr) {
-- 
2.43.0


From b042124332e23b8e9a4407ef57a1998275179878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 9/9] fix: integer constants with grouped digits are integer
 constants

---
 .../src/parser_generator/lexer/lexer_ported.rs         | 10 ++++++----
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 7172e87..a33081e 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,11 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores between digits only group them
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 7172e87..a33081e 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,11 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores between digits only group them
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
-- 
2.43.0

