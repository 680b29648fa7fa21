From 4a129089bc46e1820717c9bf21ee6dde1bd26ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:22 +0000
Subject: [PATCH 001/101] fix: escape plain text that surrounds a footnote
 reference

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..3471f78 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -175,7 +175,7 @@ impl Parser {
 								);
 								count += 1;
 							} else {
-								s.push_str(tok)
+								s.push_str(&Self::sanitize_display_text(tok))
 							}
 						}
 						html.push_str(&s);
-- 
2.43.0


From 7519b524fe453c3047a3b4869b6597273197e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:23 +0000
Subject: [PATCH 002/101] fix: emit a well-formed, escaped anchor for links
 with a title

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 3471f78..ce1a374 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -290,10 +290,10 @@ impl Parser {
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
 							text = Self::sanitize_display_text(t),
-							hover = ht
+							hover = Self::sanitize_display_text(ht)
 						)
 						.as_str(),
 					),
-- 
2.43.0


From 29694ee7dfd291eb08af2ca9a8ecc85f23bbf9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:25 +0000
Subject: [PATCH 003/101] fix: percent-encode quotes and angle brackets in link
 targets

---
 gfm/src/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..3987302 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -164,6 +164,9 @@ pub(crate) fn percent_encode(source: &str) -> String {
 		.replace('*', "%2A")
 		.replace(' ', "%20")
 		.replace('\\', "%5C")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
 }
 
 /// Holds the possible states of a taskbox in a task list
-- 
2.43.0


From ee73ce92b1dbeb15fc8ea2e317bf1fc3aaa0f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:26 +0000
Subject: [PATCH 004/101] fix: escape markup characters in the visible text of
 autolinks

---
 gfm/src/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 3987302..f830ebf 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -100,7 +100,12 @@ pub struct ValidURL<'a> {
 
 impl ValidURL<'_> {
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
+		let amp_replace_content = self
+			.content
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;");
 		match &self.scheme {
 			None => format!("http:{}", amp_replace_content),
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
-- 
2.43.0


From b960b8fe40af1ac562feba830a4fa3502a83f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:02 +0000
Subject: [PATCH 005/101] fix: keep percent escapes and fragments of link
 targets intact

---
 gfm/src/token.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index f830ebf..d0b4171 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -157,8 +157,6 @@ impl fmt::Display for Scheme<'_> {
 
 pub(crate) fn percent_encode(source: &str) -> String {
 	source
-		.replace('%', "%25")
-		.replace('#', "%23")
 		.replace('[', "%5B")
 		.replace(']', "%5D")
 		.replace('!', "%21")
-- 
2.43.0


From 3e1c7a96c246855840572140941249995946d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:03 +0000
Subject: [PATCH 006/101] fix: keep relative link targets relative instead of
 prefixing http:

---
 gfm/src/token.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index d0b4171..eff2e4d 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -120,7 +120,7 @@ impl fmt::Display for ValidURL<'_> {
 			None => {
 				write!(
 					f,
-					"http:{}",
+					"{}",
 					percent_encode(self.content).replace('&', "&amp;")
 				)
 			}
@@ -200,7 +200,10 @@ impl fmt::Display for Alignment {
 pub(crate) fn validate_link(
 	source: &str,
 ) -> Result<ValidURL, SanitizationError> {
-	if !source.is_ascii() || source.contains(char::is_whitespace) {
+	if !source.is_ascii() ||
+		source.contains(char::is_whitespace) ||
+		source.contains(char::is_control)
+	{
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
 		return Err(SanitizationError { content: source });
 	}
-- 
2.43.0


From 00bd5e5e81e694aed31c98069382b4d02a9fb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:04 +0000
Subject: [PATCH 007/101] fix: keep the whole target of links that contain both
 @ and a colon

---
 gfm/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index eff2e4d..cd3375f 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -248,7 +248,7 @@ pub(crate) fn validate_link(
 		if source_scheme.is_some() {
 			return Ok(ValidURL {
 				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
+				content: source.split_once(':').map_or(source, |(_, p)| p),
 			});
 		}
 		return Ok(ValidURL {
-- 
2.43.0


From 3e272b0165f2025c3e15ce0236db76dbce6d512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:05 +0000
Subject: [PATCH 008/101] fix: escape image targets and keep their scheme

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..ef0c2ef 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -805,7 +805,7 @@ impl<'a> Lexer<'a> {
 				})
 			}
 			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
+				return Ok(Token::Image(link.to_string(), title))
 			}
 			_ => {
 				return Err(ParseError {
-- 
2.43.0


From a49ebda704cdfe132dac9e0e9a16c49d4da42486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:02 +0000
Subject: [PATCH 009/101] fix: do not panic on, or lose the text of, headings
 with an {#id}

---
 gfm/src/lexer.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ef0c2ef..1d0d2fc 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -218,15 +218,12 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		let mut label = None;
+		if let Some((heading, title)) = line.rsplit_once("{#") {
+			if let Some(id) = title.trim_end().strip_suffix('}') {
+				line = heading;
+				label = Some(id.to_string());
+			}
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
@@ -237,7 +234,7 @@ impl<'a> Lexer<'a> {
 				None => line,
 			};
 		if line.chars().all(|c| c == '#') {
-			return Ok(Token::Header(hashes.len(), "".to_string(), None));
+			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
 		let parsed_line = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
@@ -251,7 +248,7 @@ impl<'a> Lexer<'a> {
 		.trim()
 		.to_string();
 
-		Ok(Token::Header(hashes.len(), parsed_line, None))
+		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From b6e243bf08ea4960618f6ed6ae01d775b7e5298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:03 +0000
Subject: [PATCH 010/101] fix: terminate on unbalanced nested details

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 1d0d2fc..6451a4d 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -886,7 +886,7 @@ impl<'a> Lexer<'a> {
 		if remaining_text.contains("<details>") {
 			let mut opens = remaining_text.matches("<details>").count();
 			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
+			while opens >= closes && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
 				remaining_text = self
 					.iter
-- 
2.43.0


From e2f96be0793b5a78ad06cde40d9d4c1b7438d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:05 +0000
Subject: [PATCH 011/101] fix: keep the body of an unclosed details section

---
 gfm/src/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6451a4d..8a3822f 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -897,7 +897,9 @@ impl<'a> Lexer<'a> {
 			}
 		}
 		let inner_tokens = Parser::lex(
-			remaining_text.strip_suffix("</details>").unwrap_or(""),
+			remaining_text
+				.strip_suffix("</details>")
+				.unwrap_or(remaining_text),
 			&[],
 		);
 		Ok(Token::Detail(summary_line.to_string(), inner_tokens))
-- 
2.43.0


From 75c92c2097e88422278c8ecf937f27dbc8742c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:06 +0000
Subject: [PATCH 012/101] fix: remove stray characters before the end of
 details

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ce1a374..bc895d5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -330,8 +330,8 @@ impl Parser {
 					let inner_html = Self::parse(inner_tokens);
 					html.push_str(
 						format!(
-							"<details>\n<summary>{sum}</summary>\n{in_html}\\
-							 n</details>",
+							"<details>\n<summary>{sum}</summary>\n{in_html}\n\
+							 </details>",
 							sum = Self::sanitize_display_text(summary),
 							in_html = inner_html
 						)
-- 
2.43.0


From f5344d9c87c8318d5a5dc77e9e41e380bb74c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 013/101] fix: do not print EOF for a backslash at the end of
 the input

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8a3822f..313003b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -365,7 +365,7 @@ impl<'a> Lexer<'a> {
 			));
 		}
 
-		Err(ParseError { content: "EOF" })
+		Err(ParseError { content: "\\" })
 	}
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From 597089f1d87ff1542f2f8e7c6b2689b5bf9a78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:18 +0000
Subject: [PATCH 014/101] fix: keep the text of a link whose target is refused

---
 gfm/src/lexer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 313003b..f56b0cc 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -753,9 +753,12 @@ impl<'a> Lexer<'a> {
 				Ok(vl) => {
 					return Ok(Token::Link(vl, Some(title.to_string()), None))
 				}
-				Err(se) => {
+				Err(_) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
@@ -776,9 +779,12 @@ impl<'a> Lexer<'a> {
 						Some(hover.to_string()),
 					))
 				}
-				Err(se) => {
+				Err(_) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
-- 
2.43.0


From 63cbdeba362eee0da21ecd49cdb3d24647f2b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:19 +0000
Subject: [PATCH 015/101] fix: end a link title at its parenthesis, keeping the
 rest of the line

---
 gfm/src/lexer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f56b0cc..d7ff4b4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -769,8 +769,15 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c != ")")
 				.unwrap_or("");
 
-			self.iter.skip_while_true(|c| c != "\n");
-			self.iter.next();
+			if self.iter.next_if_eq(")").is_none() {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				});
+			}
+			let hover = hover.trim().trim_matches(['"', '\'']);
 			match validate_link(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
-- 
2.43.0


From 3ff0c4fa9b2e825cb9545bb6c655982c97513908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:20 +0000
Subject: [PATCH 016/101] fix: accept ordered list numbers of more than one
 digit

---
 gfm/src/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d7ff4b4..667dbbb 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -329,7 +329,12 @@ impl<'a> Lexer<'a> {
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
-		let c = self.iter.next().unwrap();
+		let c = self
+			.iter
+			.consume_while_case_holds(&|c| {
+				c.chars().all(|d| d.is_ascii_digit())
+			})
+			.unwrap_or("");
 		match self.iter.next_if_eq(".") {
 			Some(".") => {
 				if self.iter.next_if_eq(" ") != Some(" ") {
-- 
2.43.0


From 023aa34e188ffa691b2be3e9defca8f3be571035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 017/101] fix: keep the indented line that follows a list item

---
 gfm/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 667dbbb..6d7da19 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -546,12 +546,12 @@ impl<'a> Lexer<'a> {
 			match self.iter.peek_line_ahead() {
 				Some(s) if s.starts_with("  ") => {
 					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens.append(&mut Parser::lex(line, &[]))
+					list_element_tokens.push(Token::Plaintext(line.to_string()))
 				}
 				Some(s) if s.starts_with("\t") => {
 					let line = self.iter.consume_line_ahead().unwrap_or("");
 					list_element_tokens
-						.append(&mut Parser::lex(&line[1..], &[]))
+						.push(Token::Plaintext(line[1..].to_string()))
 				}
 				_ => {}
 			}
-- 
2.43.0


From fb9454b86ee4ac401050b4efd8e76b5d23c36716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:43 +0000
Subject: [PATCH 018/101] fix: recognise block markers at the start of a line
 only

---
 gfm/src/iter.rs  |  6 ++++++
 gfm/src/lexer.rs | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 8a1f82c..4eec332 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -86,6 +86,12 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(self.index..=(self.the_str.len() - 1))
 	}
 
+	/// Whether only blanks precede the current position on its line.
+	pub fn at_line_start(&self) -> bool {
+		let before = self.the_str[..self.index].trim_end_matches([' ', '\t']);
+		before.is_empty() || before.ends_with('\n')
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6d7da19..3ad420b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -54,7 +54,7 @@ impl<'a> Lexer<'a> {
 		while let Some(ch) = self.iter.peek() {
 			debug!("Processing character: {:?}", self.iter.peek());
 			match ch {
-				"#" if !ignore.contains(&'#') => {
+				"#" if !ignore.contains(&'#') && self.iter.at_line_start() => {
 					return match self.lex_heading() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -81,7 +81,9 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0" => {
+				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0"
+					if self.iter.at_line_start() =>
+				{
 					return match self.lex_numbers() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -103,7 +105,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"-" | "+" => {
+				"-" | "+" if self.iter.at_line_start() => {
 					return match self.lex_plus_minus() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -112,7 +114,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				">" => {
+				">" if self.iter.at_line_start() => {
 					return match self.lex_blockquotes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -166,7 +168,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"|" => {
+				"|" if self.iter.at_line_start() => {
 					return match self.lex_pipes() {
 						Ok(t) => Some(t),
 						Err(e) => {
-- 
2.43.0


From 0abe54b80902b9f0f593ba11c73835ee588f0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:44 +0000
Subject: [PATCH 019/101] fix: require a blank after a - or + list marker

---
 gfm/src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3ad420b..2fe8e46 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -506,7 +506,11 @@ impl<'a> Lexer<'a> {
 						.unwrap_or(""),
 				})
 			}
-			1 => {}
+			1 if matches!(
+				self.iter.peek(),
+				Some(" ") | Some("\t") | Some("\n") | None
+			) => {}
+			1 => return Err(ParseError { content: s }),
 			_ => {
 				return Err(ParseError {
 					content: "string length error",
-- 
2.43.0


From ac7065da76b0c4ae619185fcbf07c67db88d2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 020/101] fix: keep empty table cells in their column and
 refuse ragged tables

---
 gfm/src/lexer.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 2fe8e46..656440c 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -948,9 +948,21 @@ impl<'a> Lexer<'a> {
 					.unwrap_or(""),
 			});
 		}
-		if !lines
-			.iter()
-			.all(|l| l.matches("|").count() == lines[0].matches("|").count())
+		let mut lines: Vec<Vec<&str>> = lines
+			.into_iter()
+			.map(|l| {
+				let l = l.trim_end();
+				l.strip_suffix('|').unwrap_or(l).split('|').collect()
+			})
+			.collect();
+		let is_delimiter = |c: &&str| {
+			let c = c.trim();
+			let dashes = c.strip_prefix(':').unwrap_or(c);
+			let dashes = dashes.strip_suffix(':').unwrap_or(dashes);
+			!dashes.is_empty() && dashes.chars().all(|d| d == '-')
+		};
+		if !lines.iter().all(|l| l.len() == lines[0].len()) ||
+			!lines[1].iter().all(is_delimiter)
 		{
 			return Err(ParseError {
 				content: self
@@ -961,14 +973,12 @@ impl<'a> Lexer<'a> {
 		}
 		let headings: Vec<_> = lines
 			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
+			.into_iter()
 			.map(|x| x.trim().to_string())
 			.collect();
 		let alignments: Vec<_> = lines
 			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
+			.into_iter()
 			.map(|x| {
 				match (x.trim().starts_with(":"), x.trim().ends_with(":")) {
 					(true, false) => Alignment::Left,
@@ -980,11 +990,8 @@ impl<'a> Lexer<'a> {
 			.collect();
 		let mut rows = Vec::new();
 		for l in lines.into_iter() {
-			let elements: Vec<&str> = l
-				.split("|")
-				.filter(|&x| x != "")
-				.map(|x| x.trim())
-				.collect();
+			let elements: Vec<&str> =
+				l.into_iter().map(|x| x.trim()).collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
 				let mut inner_tokens = Parser::lex(&e, &[]);
-- 
2.43.0


From 39512ca9b97c1ee11162e4eca62fd146e9ccf28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:47 +0000
Subject: [PATCH 021/101] fix: do not drop parts of a table cell

---
 gfm/src/lexer.rs | 5 ++++-
 gfm/src/token.rs | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 656440c..8b2b78a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -995,7 +995,10 @@ impl<'a> Lexer<'a> {
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
 				let mut inner_tokens = Parser::lex(&e, &[]);
-				inner_tokens.retain(|token| token.is_usable_in_table());
+				if !inner_tokens.iter().all(|token| token.is_usable_in_table())
+				{
+					inner_tokens = vec![Token::Plaintext(e.to_string())];
+				}
 				r.push(inner_tokens);
 			}
 			rows.push(
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index cd3375f..65abaae 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -87,6 +87,7 @@ impl Token<'_> {
 			Token::Italic(_) => true,
 			Token::BoldItalic(_) => true,
 			Token::Plaintext(_) => true,
+			Token::Strikethrough(_) => true,
 			_ => false,
 		}
 	}
-- 
2.43.0


From c4e549ea373ba47829655925f8d41bf3275570c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 022/101] fix: render each inline element of a table cell once

---
 gfm/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index bc895d5..ffc66ac 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -480,8 +480,9 @@ impl Parser {
 											)
 											.as_str(),
 										),
-									_ => row_string
-										.push_str(&Self::parse(&elem.1)),
+									_ => row_string.push_str(&Self::parse(
+										std::slice::from_ref(token),
+									)),
 								}
 							}
 							html.push_str(
-- 
2.43.0


From a9f33819c1b9179d8add22d6baca310201f04f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:11 +0000
Subject: [PATCH 023/101] fix: close open blocks before starting the next one

---
 gfm/src/lib.rs | 96 +++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ffc66ac..f9b70c5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -66,6 +66,60 @@ impl Parser {
 			let token = token_iter.next().unwrap();
 
 			debug!("Processing token: {:?}", token);
+			let is_blank = match token {
+				Token::Plaintext(t) => t.trim().is_empty(),
+				Token::Tab |
+				Token::DoubleTab |
+				Token::Newline |
+				Token::LineBreak => true,
+				_ => false,
+			};
+			// close the open blocks that this token does not continue
+			if !is_blank {
+				if in_code && !matches!(token, Token::Code(_)) {
+					in_code = false;
+					if !html.ends_with('\n') {
+						html.push('\n');
+					}
+					html.push_str("</code></pre>\n");
+				}
+				if in_ordered_list &&
+					!matches!(token, Token::OrderedListEntry(_))
+				{
+					in_ordered_list = false;
+					html.push_str("</ol>\n");
+				}
+				if in_unordered_list &&
+					!matches!(token, Token::UnorderedListEntry(_))
+				{
+					in_unordered_list = false;
+					html.push_str("</ul>\n");
+				}
+				if in_task_list && !matches!(token, Token::TaskListItem(_, _)) {
+					in_task_list = false;
+					html.push_str("</ul>\n");
+				}
+				if !matches!(token, Token::BlockQuote(_, _)) {
+					for _i in 0..quote_level {
+						html.push_str("</blockquote>");
+					}
+					quote_level = 0;
+				}
+				if in_paragraph &&
+					matches!(
+						token,
+						Token::CodeBlock(_, _) |
+							Token::Header(_, _, _) | Token::Code(_) |
+							Token::OrderedListEntry(_) |
+							Token::UnorderedListEntry(_) |
+							Token::TaskListItem(_, _) |
+							Token::HorizontalRule | Token::Table(_, _)
+					) {
+					in_paragraph = false;
+					html.push_str("</p>\n");
+				}
+			}
+
 			match token {
 				Token::Plaintext(t) if t.trim().is_empty() => {} // ignore
 				Token::Tab | Token::DoubleTab => {}
@@ -82,55 +136,15 @@ impl Parser {
 				Token::Link(_, _, _)
 					if !in_paragraph =>
 				{
-					for _i in 0..quote_level {
-						html.push_str("</blockquote>");
-						quote_level -= 1;
-					}
 					in_paragraph = true;
 					html.push_str("<p>")
 				}
-				_ if in_ordered_list => {
-					in_ordered_list = false;
-					html.push_str("</ol>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				_ if in_unordered_list => {
-					in_unordered_list = false;
-					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				_ if in_task_list => {
-					in_task_list = false;
-					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
+				Token::Newline if in_paragraph => {
 					in_paragraph = false;
 					html.push_str("</p>\n")
 				}
 				Token::BlockQuote(_, _) | Token::Newline if quote_level > 0 => {
 				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
-				}
 				Token::Code(_) if !in_code => {
 					html.push_str("<pre><code>");
 					in_code = true;
-- 
2.43.0


From 76e50dc9baaee586d56745ccb60f809ad9658bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:12 +0000
Subject: [PATCH 024/101] fix: do not escape block quote text twice

---
 gfm/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f9b70c5..a10d6ed 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -395,10 +395,8 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
+							&Self::render(t.trim_start_matches(" "))
+								.replace("\t", "  "),
 						);
 					}
 				}
-- 
2.43.0


From 8d485e41ebadbae7928e353cc9dc6f66b279e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:13 +0000
Subject: [PATCH 025/101] fix: do not nest the paragraph of an image inside
 another paragraph

---
 gfm/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index a10d6ed..c7609e3 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -133,7 +133,8 @@ impl Parser {
 				Token::Bold(_) |
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
-				Token::Link(_, _, _)
+				Token::Link(_, _, _) |
+				Token::Image(_, _)
 					if !in_paragraph =>
 				{
 					in_paragraph = true;
@@ -274,27 +275,27 @@ impl Parser {
 				}
 				Token::Image(l, t) => match (l, t) {
 					(l, None) if l.trim() == "" => {
-						html.push_str("<p><img src=\"data:,\"></p>")
+						html.push_str("<img src=\"data:,\">")
 					}
 					(l, Some(t)) if l.trim() == "" => html.push_str(
 						format!(
-							"<p><img src=\"data:,\" alt=\"{text}\"></p>",
+							"<img src=\"data:,\" alt=\"{text}\">",
 							text = Self::sanitize_display_text(t)
 						)
 						.as_str(),
 					),
 					(l, None) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\"> \
-							 referrerpolicy=\"no-referrer\"></p>",
+							"<img src=\"{link}\" \
+							 referrerpolicy=\"no-referrer\">",
 							link = l
 						)
 						.as_str(),
 					),
 					(l, Some(t)) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\" alt=\"{text}\" \
-							 referrerpolicy=\"no-referrer\"></p>",
+							"<img src=\"{link}\" alt=\"{text}\" \
+							 referrerpolicy=\"no-referrer\">",
 							link = l,
 							text = Self::sanitize_display_text(t)
 						)
-- 
2.43.0


From 804e356eed107034e4ae5da723f92e7cf1b8fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 026/101] fix: give each footnote the id its references link to

---
 gfm/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index c7609e3..4aca60b 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -562,7 +562,13 @@ impl Parser {
 			html.push_str("<div class=\"footnotes\" role=\"doc-endnotes\">\n");
 			html.push_str("\t<ol>\n");
 			for reference in references.iter() {
-				html.push_str("\t\t<li id=\"fn:1\" role=\"doc-endnote\">");
+				html.push_str(
+					format!(
+						"\t\t<li id=\"fn:{}\" role=\"doc-endnote\">",
+						Self::sanitize_display_text(reference.0)
+					)
+					.as_str(),
+				);
 				html.push_str(
 					format!(
 						"\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
-- 
2.43.0


From 9ae5428685d6c8eb3d65ba22c8c70921b39b0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 027/101] fix: keep heading text that is not a single paragraph

---
 gfm/src/lexer.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8b2b78a..6867982 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -238,17 +238,18 @@ impl<'a> Lexer<'a> {
 		if line.chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
-		let parsed_line = Parser::render_ignore(
+		let rendered = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
 				.trim_end_matches([' ', '\t']),
 			&['#'],
-		)
-		.strip_prefix("<p>")
-		.unwrap_or("")
-		.strip_suffix("</p>\n")
-		.unwrap_or("")
-		.trim()
-		.to_string();
+		);
+		let parsed_line = rendered
+			.strip_prefix("<p>")
+			.and_then(|text| text.strip_suffix("</p>\n"))
+			.filter(|text| !text.contains("</p>"))
+			.unwrap_or(&rendered)
+			.trim()
+			.to_string();
 
 		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
-- 
2.43.0


From 2283bff057a6ddc05330d25a3fad7954cac52206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 028/101] fix: render fenced code blocks, and code with its
 backslashes

---
 gfm/src/lib.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 4aca60b..35e514e 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -519,9 +519,21 @@ impl Parser {
 					)
 					.as_str(),
 				),
-				Token::Code(t) => html.push_str(
-					format!("{}", Self::sanitize_display_text(t)).as_str(),
-				),
+				Token::Code(t) => html.push_str(&Self::escape_code(t)),
+				Token::CodeBlock(t, lang) => {
+					match lang.split_whitespace().next() {
+						Some(l) => html.push_str(
+							format!(
+								"<pre><code class=\"language-{}\">",
+								Self::sanitize_display_text(l)
+							)
+							.as_str(),
+						),
+						None => html.push_str("<pre><code>"),
+					}
+					html.push_str(&Self::escape_code(t));
+					html.push_str("</code></pre>\n");
+				}
 				Token::HorizontalRule => html.push_str("<hr />\n"),
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
@@ -589,6 +601,15 @@ impl Parser {
 		html
 	}
 
+	/// Escapes code, which unlike other text keeps its backslashes.
+	fn escape_code(source: &str) -> String {
+		source
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;")
+	}
+
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
 		source
 			.replace('&', "&amp;")
-- 
2.43.0


From 9f2c321cea8913278cec2b66ecb5c5d41b8a84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:38 +0000
Subject: [PATCH 029/101] fix: render code spans inline

---
 gfm/src/lexer.rs | 4 ++--
 gfm/src/lib.rs   | 4 ++++
 gfm/src/token.rs | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6867982..b81d8c2 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -661,11 +661,11 @@ impl<'a> Lexer<'a> {
 		} else {
 			let s = s.trim_end_matches(tail);
 			if s.starts_with(' ') && s.ends_with(' ') {
-				return Ok(Token::Code(
+				return Ok(Token::CodeSpan(
 					s.trim_start_matches(' ').trim_end_matches(' ').to_string(),
 				));
 			}
-			return Ok(Token::Code(s.to_string()));
+			return Ok(Token::CodeSpan(s.to_string()));
 		}
 
 		// leading_ticks.len() == 3. Check for lang
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 35e514e..14c48a0 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -133,6 +133,7 @@ impl Parser {
 				Token::Bold(_) |
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
+				Token::CodeSpan(_) |
 				Token::Link(_, _, _) |
 				Token::Image(_, _)
 					if !in_paragraph =>
@@ -520,6 +521,9 @@ impl Parser {
 					.as_str(),
 				),
 				Token::Code(t) => html.push_str(&Self::escape_code(t)),
+				Token::CodeSpan(t) => html.push_str(
+					format!("<code>{}</code>", Self::escape_code(t)).as_str(),
+				),
 				Token::CodeBlock(t, lang) => {
 					match lang.split_whitespace().next() {
 						Some(l) => html.push_str(
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 65abaae..763d8a4 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -37,8 +37,10 @@ pub enum Token<'a> {
 	DoubleTab,
 	/// str: Text to be struck through
 	Strikethrough(String),
-	/// str: Text to be placed within an inline code tag. eg. <code>str</code>
+	/// str: Line of an indented code block
 	Code(String),
+	/// str: Text to be placed within an inline code tag. eg. <code>str</code>
+	CodeSpan(String),
 	/// First str: Text to be placed within a multi-line code tag. Second str:
 	/// Language
 	CodeBlock(String, String),
@@ -82,6 +84,7 @@ impl Token<'_> {
 	pub(crate) fn is_usable_in_table(&self) -> bool {
 		match self {
 			Token::Code(_) => true,
+			Token::CodeSpan(_) => true,
 			Token::Link(_, _, _) => true,
 			Token::Bold(_) => true,
 			Token::Italic(_) => true,
-- 
2.43.0


From 023cdd6fd53df3bc0bf4003350622d6b7a0f2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:03 +0000
Subject: [PATCH 030/101] fix: keep the blanks between the words of a paragraph

---
 gfm/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 14c48a0..cf48346 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -58,6 +58,7 @@ impl Parser {
 		let mut in_ordered_list = false;
 		let mut in_unordered_list = false;
 		let mut in_code = false;
+		let mut pending_blank = String::new();
 		let mut references = Vec::new();
 		let mut token_iter = tokens.iter().peekable();
 
@@ -154,10 +155,24 @@ impl Parser {
 				_ => {}
 			}
 
+			// blanks only separate the inline content of a paragraph
+			if !is_blank {
+				if in_paragraph && !html.ends_with("<p>") {
+					html.push_str(&pending_blank);
+				}
+				pending_blank.clear();
+			}
+
 			match token {
 				Token::Plaintext(t) => {
 					let mut t: String = t.to_string();
-					if t.trim().is_empty() {
+					if is_blank {
+						if in_paragraph && pending_blank != "\n" {
+							pending_blank = match t.contains('\n') {
+								true => "\n".to_string(),
+								false => t,
+							};
+						}
 						continue;
 					}
 
@@ -165,6 +180,7 @@ impl Parser {
 						let (_before, after) = t.split_at(n);
 						if after.chars().all(|c| c.is_whitespace()) {
 							t = t.trim_end_matches(after).to_string();
+							pending_blank = "\n".to_string();
 						}
 					});
 
-- 
2.43.0


From 62ef0026f447d542cf41fbdafafdf49a505a5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 031/101] fix: escape | and ~ with entities that denote these
 characters

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index cf48346..83b1709 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -641,9 +641,9 @@ impl Parser {
 			.replace(']', "&rbrack;")
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
-			.replace('|', "&mid;")
+			.replace('|', "&#124;")
 			.replace('\\', "")
-			.replace('~', "&tilde;")
+			.replace('~', "&#126;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
 	}
-- 
2.43.0


From f178e5a9d336a8afc38974f2fbbc451f3a117f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:16 +0000
Subject: [PATCH 032/101] fix: keep a lone < and leave the lines after it alone

---
 gfm/src/lexer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b81d8c2..c6f2ef5 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -846,7 +846,7 @@ impl<'a> Lexer<'a> {
 
 		let s = self
 			.iter
-			.consume_while_case_holds(&|c| c != ">")
+			.consume_while_case_holds(&|c| c != ">" && c != "\n")
 			.unwrap_or("");
 		match (s, self.iter.next_if_eq(">")) {
 			("details", Some(">")) => {
@@ -882,7 +882,14 @@ impl<'a> Lexer<'a> {
 			(_, Some(">")) if s.len() == 0 => {
 				return Err(ParseError { content: "<>" })
 			}
-			(_, _) => return Err(ParseError { content: s }),
+			(_, _) => {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				})
+			}
 		}
 	}
 
-- 
2.43.0


From 461312319d3aa394330260859e3f6fd3fd2bf25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:33 +0000
Subject: [PATCH 033/101] fix: confine an unmatched inline marker to its own
 paragraph

---
 gfm/src/iter.rs  |  7 +++++++
 gfm/src/lexer.rs | 23 ++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 4eec332..f9f106b 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -108,6 +108,13 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str[self.index..].find(pattern)
 	}
 
+	/// Whether `pattern` occurs before the end of the current paragraph.
+	pub fn is_ahead_in_paragraph(&self, pattern: &str) -> bool {
+		let rest = &self.the_str[self.index..];
+		rest.find(pattern)
+			.is_some_and(|end| !rest[..end].contains("\n\n"))
+	}
+
 	pub fn peek_line_ahead(&self) -> Option<&'a str> {
 		match self.find_next("\n") {
 			Some(newline_index) => {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index c6f2ef5..97cf711 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -396,6 +396,12 @@ impl<'a> Lexer<'a> {
 		{
 			return Ok(Token::HorizontalRule);
 		}
+		if asterunds.len() <= 3 &&
+			!self.iter.is_ahead_in_paragraph("*") &&
+			!self.iter.is_ahead_in_paragraph("_")
+		{
+			return Err(ParseError { content: asterunds });
+		}
 		match asterunds.len() {
 			1 => {
 				let s = self
@@ -583,6 +589,11 @@ impl<'a> Lexer<'a> {
 					content: lead_tildes,
 				})
 			}
+			2 if !self.iter.is_ahead_in_paragraph("~") => {
+				return Err(ParseError {
+					content: lead_tildes,
+				})
+			}
 			2 => {
 				let line = self
 					.iter
@@ -650,6 +661,11 @@ impl<'a> Lexer<'a> {
 		let tail = &(0..leading_ticks.len() as u64)
 			.map(|_| "`")
 			.collect::<String>();
+		if !self.iter.is_ahead_in_paragraph(tail) {
+			return Err(ParseError {
+				content: leading_ticks,
+			});
+		}
 		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
 		if !s.ends_with(tail) {
 			return Err(ParseError {
@@ -676,6 +692,9 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("[") != Some(&"[") {
 			return Err(ParseError { content: "" });
 		}
+		if !self.iter.is_ahead_in_paragraph("]") {
+			return Err(ParseError { content: "[" });
+		}
 		let title = self
 			.iter
 			.consume_while_case_holds(&|c| c != "]")
@@ -740,7 +759,9 @@ impl<'a> Lexer<'a> {
 					.to_string(),
 			));
 		}
-		if self.iter.next_if_eq("(") != Some(&"(") {
+		if self.iter.next_if_eq("(") != Some(&"(") ||
+			!self.iter.is_ahead_in_paragraph(")")
+		{
 			return Err(ParseError {
 				content: self
 					.iter
-- 
2.43.0


From 792c8cc7d07e6b2b4e19c4d272bded439b2827ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 034/101] fix: recognise * and _ block markers at the start of
 a line only

---
 gfm/src/lexer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 97cf711..3a82a80 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -378,11 +378,15 @@ impl<'a> Lexer<'a> {
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let at_line_start = self.iter.at_line_start();
 		let asterunds = self
 			.iter
 			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
 			.unwrap_or("");
-		if asterunds.len() == 1 && self.iter.next_if_eq(" ").is_some() {
+		if asterunds.len() == 1 &&
+			at_line_start &&
+			self.iter.next_if_eq(" ").is_some()
+		{
 			let s = self
 				.iter
 				.consume_while_case_holds(&|c| c != "\n")
@@ -392,7 +396,9 @@ impl<'a> Lexer<'a> {
 				s.to_string(),
 			)]));
 		}
-		if asterunds.chars().all(|x| x == '*') && self.iter.peek() == Some("\n")
+		if at_line_start &&
+			asterunds.chars().all(|x| x == '*') &&
+			self.iter.peek() == Some("\n")
 		{
 			return Ok(Token::HorizontalRule);
 		}
@@ -463,8 +469,9 @@ impl<'a> Lexer<'a> {
 				}
 			}
 			_ => {
-				if asterunds.replace("\t", "").chars().all(|x| x == '*') ||
-					asterunds.chars().all(|x| x == '_')
+				if at_line_start &&
+					(asterunds.replace("\t", "").chars().all(|x| x == '*') ||
+						asterunds.chars().all(|x| x == '_'))
 				{
 					Ok(Token::HorizontalRule)
 				} else {
-- 
2.43.0


From 38e866ed5d41ba46653c2cf83506a5829059ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:02 +0000
Subject: [PATCH 035/101] fix: number footnote references consistently across
 the document

---
 gfm/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 83b1709..4083364 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -60,6 +60,7 @@ impl Parser {
 		let mut in_code = false;
 		let mut pending_blank = String::new();
 		let mut references = Vec::new();
+		let mut cited: Vec<String> = Vec::new();
 		let mut token_iter = tokens.iter().peekable();
 
 		// multi-liners
@@ -187,10 +188,12 @@ impl Parser {
 					if t.contains("[^") && t.contains("]") {
 						let plaintext_tokens = t.split("[^");
 						let mut s = String::new();
-						let mut count = 1;
 						for tok in plaintext_tokens {
 							if tok.trim_end().ends_with("]") {
 								let tok = tok.trim_end().trim_end_matches(']');
+								if !cited.iter().any(|c| c == tok) {
+									cited.push(tok.to_string());
+								}
 								s.push_str(
 									format!(
 										"<sup id=\"fnref:{reference}\" \
@@ -201,11 +204,13 @@ impl Parser {
 										 sup>",
 										reference =
 											Self::sanitize_display_text(tok),
-										ref_count = count
+										ref_count = cited
+											.iter()
+											.take_while(|c| *c != tok)
+											.count() + 1
 									)
 									.as_str(),
 								);
-								count += 1;
 							} else {
 								s.push_str(&Self::sanitize_display_text(tok))
 							}
-- 
2.43.0


From fca326c362f8f4a7a7064eb68d644c1abc07555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 036/101] fix: write the whole content or report an error,
 never a silent prefix

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From 1a85a02a839fbfd676e073d701ca3f39a8922024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 037/101] fix: refuse to overwrite the input file with its own
 conversion

---
 smd/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..f3b5351 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,7 +9,10 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
 
@@ -36,9 +39,18 @@ pub fn run(cli: Cli) -> Result<()> {
 			let result = gfm::Parser::render(&content);
 
 			let mut out_path = args.input.clone();
+			out_path.set_extension(match args.output {
+				args::OutputFileFormat::Html => HTML_FILE_ENDING,
+				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
+			});
+			if out_path.canonicalize().is_ok_and(|out| out == args.input) {
+				return Err(Error::CustomError(format!(
+					"{} would overwrite the input file",
+					out_path.display()
+				)));
+			}
 
 			if args.output.eq(&args::OutputFileFormat::Html) {
-				out_path.set_extension(HTML_FILE_ENDING);
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -46,7 +58,6 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
-					out_path.set_extension(PDF_FILE_ENDING);
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From a291088fafdb8b897b81fe559f37e096c25f9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 038/101] fix: give every conversion its own temporary file and
 always remove it

---
 smd-core/src/convert.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..96d3be0 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -1,6 +1,16 @@
 use std::{
 	env,
 	fs,
+	io::ErrorKind,
+	path::{
+		Path,
+		PathBuf,
+	},
+	process,
+	sync::atomic::{
+		AtomicUsize,
+		Ordering,
+	},
 };
 
 use headless_chrome::types::PrintToPdfOptions;
@@ -23,18 +33,37 @@ where
 	T::from_html(html)
 }
 
+/// Creates an empty html file in `dir` that nobody else uses.
+fn create_tmpfile(dir: &Path) -> Result<PathBuf> {
+	static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+	loop {
+		let path = dir.join(format!(
+			"smd-{}-{}.html",
+			process::id(),
+			COUNTER.fetch_add(1, Ordering::Relaxed)
+		));
+		match fs::File::create_new(&path) {
+			Ok(_) => return Ok(path),
+			Err(e) if e.kind() == ErrorKind::AlreadyExists => {}
+			Err(e) => return Err(e.into()),
+		}
+	}
+}
+
 pub struct PDFConverter;
 
 impl Convert for PDFConverter {
 	fn from_html(html: &str) -> Result<Vec<u8>> {
 		let browser = BrowserSession::initialize()?;
 
-		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
+		let tmpfile = create_tmpfile(&env::current_dir()?)?;
 
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		let opened = write_to_file(&tmpfile, html)
+			.and_then(|()| browser.open_file(&tmpfile));
+		let removed = fs::remove_file(tmpfile);
+		let tab_id = opened?;
+		removed?;
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From 88b9e9afb349dcf89e8fe19d38162e356e5ab152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:00 +0000
Subject: [PATCH 039/101] fix: open html files whose path has characters
 special to urls

---
 smd-core/src/browser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 9c2f903..385c4f8 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -32,7 +32,14 @@ impl BrowserSession {
 	pub fn open_file(&self, path: &PathBuf) -> Result<TargetID> {
 		let current_dir = env::current_dir()?;
 		let html_file_path = current_dir.join(path);
-		let file_url = format!("file://{}", html_file_path.to_string_lossy());
+		let file_url = format!(
+			"file://{}",
+			html_file_path
+				.to_string_lossy()
+				.replace('%', "%25")
+				.replace('#', "%23")
+				.replace('?', "%3F")
+		);
 
 		let tab = self.0.new_tab().map_err(|_| {
 			Error::BrowserError("Failed to open new tab.".to_string())
-- 
2.43.0


From 72bbd65e8805263424a60d5aacd33719f071b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:01 +0000
Subject: [PATCH 040/101] fix: layer environment and partial config files over
 the defaults

---
 smd-core/src/config.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 1ffdd2c..477a810 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -11,12 +11,14 @@ use serde::{
 };
 
 #[derive(Debug, Deserialize, Serialize, Default)]
+#[serde(default)]
 pub struct Config {
 	/// Configuration values about gfm generation.
 	parse: ParseConfig,
 }
 
 #[derive(Debug, Deserialize, Serialize, Default)]
+#[serde(default)]
 pub struct ParseConfig {
 	/// Action to take when a parsing error occurs.
 	pub on_parse_error: ParseErrorAction,
@@ -54,13 +56,12 @@ impl Config {
 	pub fn load_config() -> Result<Config> {
 		let config_path =
 			dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
-		if config_path.exists() {
-			let content = fs::read_to_string(&config_path)?;
-			let config = Self::parse_from_str(&content)?;
-			return Ok(config);
-		}
+		let content = match config_path.exists() {
+			true => fs::read_to_string(&config_path)?,
+			false => String::new(),
+		};
 
-		Ok(Self::default())
+		Self::parse_from_str(&content)
 	}
 
 	pub fn initialize() -> Result<()> {
-- 
2.43.0


From 1b74d2f6fc8c620541c0711532e28419e0dd16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:02 +0000
Subject: [PATCH 041/101] fix: print the version, not the help, for --version

---
 smd/src/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smd/src/args.rs b/smd/src/args.rs
index 1241706..79ce7c9 100644
--- a/smd/src/args.rs
+++ b/smd/src/args.rs
@@ -17,6 +17,7 @@ pub enum OutputFileFormat {
 #[derive(Debug, Parser)]
 #[command(
     version,
+    propagate_version = true,
     rename_all_env = "screaming-snake",
     help_template = "\
 {before-help}{name} v{version} by {author-with-newline}
@@ -51,7 +52,7 @@ pub struct Cli {
 	#[arg(
         short = 'V',
         long,
-        action = ArgAction::Help,
+        action = ArgAction::Version,
         global = true,
         help = "Prints version information",
         help_heading = Some("FLAGS"),
-- 
2.43.0


From bf9aebb422fec573ebd194a2b03d19a4eb157326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:42 +0000
Subject: [PATCH 042/101] fix: recognise footnote definitions at the start of a
 line only

---
 gfm/src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3a82a80..1e371ec 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -696,6 +696,7 @@ impl<'a> Lexer<'a> {
 
 	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let at_line_start = self.iter.at_line_start();
 		if self.iter.next_if_eq("[") != Some(&"[") {
 			return Err(ParseError { content: "" });
 		}
@@ -715,7 +716,10 @@ impl<'a> Lexer<'a> {
 			});
 		}
 		// Parse footnotes big and small
-		if title.starts_with("^") && self.iter.next_if_eq(":") == Some(&":") {
+		if at_line_start &&
+			title.starts_with("^") &&
+			self.iter.next_if_eq(":") == Some(&":")
+		{
 			let ref_id = title.strip_prefix("^").unwrap_or("");
 			let note_index = self.iter.get_index();
 			loop {
-- 
2.43.0


From 048ce6b5e23062468ebb33012ee2c51a2b9df941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:55 +0000
Subject: [PATCH 043/101] fix: keep the text of a details section without a
 summary

---
 gfm/src/lexer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 1e371ec..cc7f2b7 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -884,9 +884,14 @@ impl<'a> Lexer<'a> {
 			("details", Some(">")) => {
 				self.iter.next_if_eq(&"\r");
 				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError { content: s });
+					return Err(ParseError {
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
+					});
 				}
-				return self.parse_details();
+				return self.parse_details(start_index);
 			}
 			(_, Some(">")) if s.len() >= 1 => {
 				if s.contains(char::is_whitespace) {
@@ -925,7 +930,10 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
-	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn parse_details(
+		&mut self,
+		start_index: usize,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let mut summary_line = self
 			.iter
 			.consume_while_case_holds(&|c| c != "\n" && c != "\r")
@@ -936,7 +944,10 @@ impl<'a> Lexer<'a> {
 			!summary_line.len() >= 20
 		{
 			return Err(ParseError {
-				content: summary_line,
+				content: self
+					.iter
+					.get_substring_from(start_index)
+					.unwrap_or(""),
 			});
 		}
 		summary_line = summary_line
-- 
2.43.0


From afc80efac04435c1fac1d1074533c20c63ab5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:55 +0000
Subject: [PATCH 044/101] fix: start indented code at the start of a line only
 and keep deeper indents

A run of blanks inside a line became code or swallowed the rest of the line,
and a line indented by more than four columns lost its text when an indented
line followed it.
---
 gfm/src/lexer.rs | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index cc7f2b7..ded9ad4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -240,7 +240,7 @@ impl<'a> Lexer<'a> {
 		}
 		let rendered = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
-				.trim_end_matches([' ', '\t']),
+				.trim_matches([' ', '\t']),
 			&['#'],
 		);
 		let parsed_line = rendered
@@ -266,7 +266,7 @@ impl<'a> Lexer<'a> {
 		&mut self,
 		tokens: &Vec<Token>,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
+		let at_line_start = self.iter.at_line_start();
 		let whitespace = self
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
@@ -283,6 +283,9 @@ impl<'a> Lexer<'a> {
 			{
 				return Ok(Token::LineBreak)
 			}
+			Some(s) if !at_line_start => {
+				return Err(ParseError { content: s })
+			}
 			Some(_s) => {}
 		}
 
@@ -302,32 +305,15 @@ impl<'a> Lexer<'a> {
 			{
 				return Err(ParseError { content: line })
 			}
-			"\t" if matches!(tokens.last(), Some(Token::Code(_))) => {
-				return Ok(Token::Code(line.to_string()))
-			}
-			"\t" | "    " | "  \t" => return Ok(Token::Code(line.to_string())),
-			"\t\t" => return Ok(Token::Code("\t".to_owned() + line)),
 			_ => {}
 		}
 
-		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
-			}
-		}
-		Err(ParseError {
-			content: self.iter.get_substring_from(start_index).unwrap_or(""),
-		})
+		// an indent of four columns starts code, what exceeds it is content
+		let indent = match whitespace.find('\t') {
+			Some(tab) if tab < 4 => tab + 1,
+			_ => 4,
+		};
+		Ok(Token::Code(whitespace[indent..].to_owned() + line))
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From e7ff9a9bbd67d1fb289b0e9fb46acd8eb523bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:35 +0000
Subject: [PATCH 045/101] fix: keep literal backslashes

---
 gfm/src/lexer.rs | 4 +++-
 gfm/src/lib.rs   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ded9ad4..08aeb45 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -353,7 +353,9 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c == "#")
 				.unwrap_or("");
 			return Ok(Token::Plaintext(hashes.to_string()));
-		} else if self.iter.peek().is_some() {
+		} else if self.iter.peek().is_some_and(|c| {
+			c == "\n" || c.chars().all(|c| c.is_ascii_punctuation())
+		}) {
 			return Ok(Token::Plaintext(
 				self.iter.next().unwrap_or_default().to_string(),
 			));
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 4083364..0366def 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -216,6 +216,8 @@ impl Parser {
 							}
 						}
 						html.push_str(&s);
+					} else if t == "\\" {
+						html.push_str(&t);
 					} else {
 						html.push_str(&Self::sanitize_display_text(
 							t.trim_start_matches('\n'),
-- 
2.43.0


From 9fb2226c0c2ffb09cb793ae62ba859211aa2ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:22 +0000
Subject: [PATCH 046/101] fix: keep all indented lines of a list entry in the
 entry

---
 gfm/src/lexer.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 08aeb45..18f6560 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -380,9 +380,9 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c != "\n")
 				.unwrap_or("");
 			self.iter.next();
-			return Ok(Token::UnorderedListEntry(vec![Token::Plaintext(
-				s.to_string(),
-			)]));
+			let mut list_element_tokens = vec![Token::Plaintext(s.to_string())];
+			list_element_tokens.extend(self.lex_indented_lines());
+			return Ok(Token::UnorderedListEntry(list_element_tokens));
 		}
 		if at_line_start &&
 			asterunds.chars().all(|x| x == '*') &&
@@ -551,22 +551,33 @@ impl<'a> Lexer<'a> {
 			));
 		} else {
 			// List entries may contain other lists
-			match self.iter.peek_line_ahead() {
-				Some(s) if s.starts_with("  ") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens.push(Token::Plaintext(line.to_string()))
-				}
-				Some(s) if s.starts_with("\t") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens
-						.push(Token::Plaintext(line[1..].to_string()))
-				}
-				_ => {}
-			}
+			list_element_tokens.extend(self.lex_indented_lines());
 			return Ok(Token::UnorderedListEntry(list_element_tokens));
 		}
 	}
 
+	/// Consumes the indented lines that belong to a list entry, without their
+	/// common indent.
+	fn lex_indented_lines(&mut self) -> Option<Token<'a>> {
+		let mut lines = String::new();
+		let mut indent = None;
+		while let Some(line) = self
+			.iter
+			.peek_line_ahead()
+			.filter(|l| l.starts_with("  ") || l.starts_with('\t'))
+		{
+			self.iter.consume_line_ahead();
+			if let Some(rest) = line.strip_prefix('\t') {
+				lines.push_str(rest);
+				continue;
+			}
+			let blanks = line.len() - line.trim_start_matches(' ').len();
+			let indent = *indent.get_or_insert(blanks);
+			lines.push_str(&line[blanks.min(indent)..]);
+		}
+		(!lines.is_empty()).then_some(Token::Plaintext(lines))
+	}
+
 	fn lex_tilde(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let lead_tildes =
-- 
2.43.0


From e9af3237e12ec13d34d65dbd71073ad25a2c3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:38 +0000
Subject: [PATCH 047/101] fix: accept block quote lines without a blank after
 the marker

---
 gfm/src/lexer.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 18f6560..66c1985 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -474,14 +474,6 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == ">")
 			.unwrap_or("");
-		match self.iter.peek() {
-			Some(" ") | Some("\t") => {}
-			_ => {
-				return Err(ParseError {
-					content: right_arrows,
-				})
-			}
-		}
 		let s = self
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
-- 
2.43.0


From e6dcc0403b050100a382be16e5b0dd99ae99eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 048/101] fix: interpret inline markup in ordered and task list
 items

---
 gfm/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 0366def..214d40d 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -256,7 +256,7 @@ impl Parser {
 					html.push_str(
 						format!(
 							"<li>\n{}</li>\n",
-							Self::sanitize_display_text(t)
+							Self::render_list_item(t)
 						)
 						.as_str(),
 					)
@@ -437,7 +437,7 @@ impl Parser {
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\" \
 								 checked=\"\">{}</li>",
-								Self::sanitize_display_text(t)
+								Self::render_list_item(t)
 							)
 							.as_str(),
 						),
@@ -446,7 +446,7 @@ impl Parser {
 								"<li class=\"task-list-item\"><input \
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\">{}</li>",
-								Self::sanitize_display_text(t)
+								Self::render_list_item(t)
 							)
 							.as_str(),
 						),
@@ -628,6 +628,18 @@ impl Parser {
 		html
 	}
 
+	/// Renders the text of a list item, usually a single paragraph whose tags
+	/// are left out.
+	fn render_list_item(source: &str) -> String {
+		let rendered = Self::render(source.trim_matches([' ', '\t']));
+		rendered
+			.strip_prefix("<p>")
+			.and_then(|text| text.strip_suffix("</p>\n"))
+			.filter(|text| !text.contains("</p>"))
+			.unwrap_or(&rendered)
+			.to_string()
+	}
+
 	/// Escapes code, which unlike other text keeps its backslashes.
 	fn escape_code(source: &str) -> String {
 		source
-- 
2.43.0


From 128476ad2879f4a12536fcd9c777d13adb63813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:27 +0000
Subject: [PATCH 049/101] fix: end a fenced code block at its closing fence
 line only

---
 gfm/src/lexer.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 66c1985..4957eeb 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -621,37 +621,35 @@ impl<'a> Lexer<'a> {
 
 	fn lex_backticks(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let at_line_start = self.iter.at_line_start();
 		let leading_ticks = self
 			.iter
 			.consume_while_case_holds(&|c| c == "`")
 			.unwrap_or("");
-		let mut lang = "";
-		if leading_ticks.len() == 3 {
-			if self.iter.next_if_eq("\n") != Some(&"\n") {
-				lang = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				self.iter.next();
-			}
-			let s = self
+		if leading_ticks.len() >= 3 &&
+			at_line_start &&
+			!self
 				.iter
-				.consume_while_case_holds(&|c| c != "`")
-				.unwrap_or("");
-			let trailing_ticks = self
+				.peek_line_ahead()
+				.is_some_and(|line| line.contains('`'))
+		{
+			let lang = self
 				.iter
-				.consume_while_case_holds(&|c| c == "`")
+				.consume_while_case_holds(&|c| c != "\n")
 				.unwrap_or("");
-			if leading_ticks.len() != trailing_ticks.len() {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
-			} else {
-				return Ok(Token::CodeBlock(s.to_string(), lang.to_string()));
+			self.iter.next();
+			let mut s = String::new();
+			while let Some(line) = self.iter.consume_line_ahead() {
+				// a line with nothing but a fence as long closes the block
+				let fence = line.trim();
+				if fence.starts_with(leading_ticks) &&
+					fence.chars().all(|c| c == '`')
+				{
+					break;
+				}
+				s.push_str(line);
 			}
+			return Ok(Token::CodeBlock(s, lang.to_string()));
 		}
 
 		// let s = self.iter.consume_while_case_holds(&|c| c != "`" && c!=
-- 
2.43.0


From 9ebf9ff53a9ab614beb9804fe2b029a1d2248b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:24 +0000
Subject: [PATCH 050/101] fix: keep the blank lines of indented code

---
 gfm/src/lexer.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 4957eeb..09d0a26 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -313,7 +313,28 @@ impl<'a> Lexer<'a> {
 			Some(tab) if tab < 4 => tab + 1,
 			_ => 4,
 		};
-		Ok(Token::Code(whitespace[indent..].to_owned() + line))
+		let mut code = whitespace[indent..].to_owned() + line;
+
+		// blank lines belong to the code if more of it follows them
+		let blanks = (1..)
+			.take_while(|n| {
+				self.iter
+					.get_substring_ahead(*n)
+					.is_some_and(|ahead| ahead.ends_with('\n'))
+			})
+			.count();
+		let code_follows = |indent: &str| {
+			self.iter
+				.get_substring_ahead(blanks + indent.len())
+				.is_some_and(|ahead| ahead.ends_with(indent))
+		};
+		if code_follows("\t") || code_follows("    ") {
+			for _ in 0..blanks {
+				code.push('\n');
+				self.iter.next();
+			}
+		}
+		Ok(Token::Code(code))
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From ccfa717c0eec5085bab1af3b91eaa3c4ce5fb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 051/101] fix: keep indented code that contains # after a blank
 line

---
 gfm/src/lexer.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 09d0a26..c0c5b69 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -299,12 +299,6 @@ impl<'a> Lexer<'a> {
 			{
 				return Err(ParseError { content: line })
 			}
-			"    "
-				if (matches!(tokens.last(), Some(Token::Newline)) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
 			_ => {}
 		}
 
-- 
2.43.0


From 4efcdabc905e35117c7b90b96d4c1511b330e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:56 +0000
Subject: [PATCH 052/101] fix: three asterisks at the end of the document are a
 rule, fewer never are

---
 gfm/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index c0c5b69..6441638 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -400,8 +400,9 @@ impl<'a> Lexer<'a> {
 			return Ok(Token::UnorderedListEntry(list_element_tokens));
 		}
 		if at_line_start &&
+			asterunds.len() >= 3 &&
 			asterunds.chars().all(|x| x == '*') &&
-			self.iter.peek() == Some("\n")
+			matches!(self.iter.peek(), None | Some("\n"))
 		{
 			return Ok(Token::HorizontalRule);
 		}
-- 
2.43.0


From 6901d9f42c45d7eb838cc58bd386c849298fb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:34 +0000
Subject: [PATCH 053/101] fix: indented code containing # after any block and a
 blank line

---
 gfm/src/iter.rs  | 5 +++++
 gfm/src/lexer.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index f9f106b..ee51dc8 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -92,6 +92,11 @@ impl<'a> MarkdownIter<'a> {
 		before.is_empty() || before.ends_with('\n')
 	}
 
+	/// Whether the line before the current position is blank.
+	pub fn after_blank_line(&self) -> bool {
+		self.the_str[..self.index].ends_with("\n\n")
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6441638..edf1891 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -267,6 +267,7 @@ impl<'a> Lexer<'a> {
 		tokens: &Vec<Token>,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let at_line_start = self.iter.at_line_start();
+		let after_blank_line = self.iter.after_blank_line();
 		let whitespace = self
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
@@ -295,6 +296,7 @@ impl<'a> Lexer<'a> {
 		match whitespace {
 			"    "
 				if (matches!(tokens.last(), Some(Token::Plaintext(_))) &&
+					!after_blank_line &&
 					line.contains('#')) =>
 			{
 				return Err(ParseError { content: line })
-- 
2.43.0


From 1cd9fd3597cc56da304621e0d954ce4eb11816b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:12 +0000
Subject: [PATCH 054/101] fix: interpret inline markup after a lone <

---
 gfm/src/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index edf1891..ba29b87 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -882,6 +882,11 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("<") != Some("<") {
 			return Err(ParseError { content: "" });
 		}
+		// only a tag or an autolink spans more than the character itself
+		let line = self.iter.peek_line_ahead().unwrap_or("");
+		if line.starts_with(char::is_whitespace) || !line.contains('>') {
+			return Err(ParseError { content: "<" });
+		}
 
 		let s = self
 			.iter
-- 
2.43.0


From 5d9b9b99fde1cfb1bd89a95b15718e1cb9ec5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:13 +0000
Subject: [PATCH 055/101] fix: code and links stay in the line of their table
 cell

---
 gfm/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 214d40d..e55c460 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -517,9 +517,11 @@ impl Parser {
 											)
 											.as_str(),
 										),
-									_ => row_string.push_str(&Self::parse(
-										std::slice::from_ref(token),
-									)),
+									_ => row_string.push_str(
+										Self::strip_paragraph(&Self::parse(
+											std::slice::from_ref(token),
+										)),
+									),
 								}
 							}
 							html.push_str(
@@ -632,12 +634,16 @@ impl Parser {
 	/// are left out.
 	fn render_list_item(source: &str) -> String {
 		let rendered = Self::render(source.trim_matches([' ', '\t']));
+		Self::strip_paragraph(&rendered).to_string()
+	}
+
+	/// The content of a single paragraph, anything else as it is.
+	fn strip_paragraph(rendered: &str) -> &str {
 		rendered
 			.strip_prefix("<p>")
 			.and_then(|text| text.strip_suffix("</p>\n"))
 			.filter(|text| !text.contains("</p>"))
-			.unwrap_or(&rendered)
-			.to_string()
+			.unwrap_or(rendered)
 	}
 
 	/// Escapes code, which unlike other text keeps its backslashes.
-- 
2.43.0


From 9fac74f389000796321d0c000b869332f8964412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 056/101] fix: keep literal backslashes in emphasis, link
 texts, titles and cells

---
 gfm/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index e55c460..312fc1a 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -655,8 +655,21 @@ impl Parser {
 			.replace('"', "&quot;")
 	}
 
+	/// Drops the backslash of escaped punctuation, others are text.
+	fn unescape(source: &str) -> String {
+		let mut text = String::with_capacity(source.len());
+		let mut chars = source.chars().peekable();
+		while let Some(c) = chars.next() {
+			match chars.next_if(|n| c == '\\' && n.is_ascii_punctuation()) {
+				Some(escaped) => text.push(escaped),
+				None => text.push(c),
+			}
+		}
+		text
+	}
+
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
-		source
+		Self::unescape(source)
 			.replace('&', "&amp;")
 			.replace('<', "&lt;")
 			.replace('>', "&gt;")
@@ -667,7 +680,6 @@ impl Parser {
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
 			.replace('|', "&#124;")
-			.replace('\\', "")
 			.replace('~', "&#126;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
-- 
2.43.0


From 1f0c2b9c882ee4eb2a54d2555f497d195094a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:02 +0000
Subject: [PATCH 057/101] fix: show images in table cells

---
 gfm/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 763d8a4..bb4b2fb 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -86,6 +86,7 @@ impl Token<'_> {
 			Token::Code(_) => true,
 			Token::CodeSpan(_) => true,
 			Token::Link(_, _, _) => true,
+			Token::Image(_, _) => true,
 			Token::Bold(_) => true,
 			Token::Italic(_) => true,
 			Token::BoldItalic(_) => true,
-- 
2.43.0


From fb582240d81b45fee73fca53635add56113d69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:35 +0000
Subject: [PATCH 058/101] fix: interpret inline markup in table headings

---
 gfm/src/lexer.rs |   7 +---
 gfm/src/lib.rs   | 105 +++++++++++++++++++++++++----------------------
 2 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ba29b87..1c87412 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -1057,12 +1057,7 @@ impl<'a> Lexer<'a> {
 				l.into_iter().map(|x| x.trim()).collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &[]);
-				if !inner_tokens.iter().all(|token| token.is_usable_in_table())
-				{
-					inner_tokens = vec![Token::Plaintext(e.to_string())];
-				}
-				r.push(inner_tokens);
+				r.push(Parser::lex_cell(e));
 			}
 			rows.push(
 				alignments.clone().into_iter().zip(r.into_iter()).collect(),
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 312fc1a..9b8278c 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -465,7 +465,8 @@ impl Parser {
 							format!(
 								"\t\t<th style=\"text-align: \
 								 {align}\">{heading}</th>",
-								heading = Self::sanitize_display_text(&h.1),
+								heading =
+									Self::render_cell(&Self::lex_cell(&h.1)),
 								align = h.0
 							)
 							.as_str(),
@@ -475,55 +476,7 @@ impl Parser {
 					for row in rows.iter() {
 						html.push_str("\n\t<tr>");
 						for elem in row.iter() {
-							let mut row_string = String::new();
-							for token in elem.1.iter() {
-								match token {
-									Token::Plaintext(s) => row_string.push_str(
-										&Self::sanitize_display_text(&s),
-									),
-									Token::Italic(t) => row_string.push_str(
-										format!(
-											"<em>{}</em>",
-											Self::sanitize_display_text(t)
-										)
-										.as_str(),
-									),
-									Token::Bold(t) => row_string.push_str(
-										format!(
-											"<strong>{}</strong>",
-											Self::sanitize_display_text(t)
-										)
-										.as_str(),
-									),
-									Token::BoldItalic(t) => row_string
-										.push_str(
-											format!(
-												"<strong><em>{}</em></strong>",
-												Self::sanitize_display_text(t)
-											)
-											.as_str(),
-										),
-									Token::LineBreak => {
-										row_string.push_str("<br>")
-									}
-									Token::HorizontalRule => {
-										row_string.push_str("<hr />")
-									}
-									Token::Strikethrough(t) => row_string
-										.push_str(
-											format!(
-												"<strike>{}</strike>",
-												Self::sanitize_display_text(t)
-											)
-											.as_str(),
-										),
-									_ => row_string.push_str(
-										Self::strip_paragraph(&Self::parse(
-											std::slice::from_ref(token),
-										)),
-									),
-								}
-							}
+							let row_string = Self::render_cell(&elem.1);
 							html.push_str(
 								format!(
 									"\n\t\t<td style=\"text-align: \
@@ -630,6 +583,58 @@ impl Parser {
 		html
 	}
 
+	/// Lexes a table cell, which holds inline content only.
+	pub(crate) fn lex_cell(source: &str) -> Vec<Token<'_>> {
+		let tokens = Self::lex(source, &[]);
+		match tokens.iter().all(|token| token.is_usable_in_table()) {
+			true => tokens,
+			false => vec![Token::Plaintext(source.to_string())],
+		}
+	}
+
+	/// Renders the inline content of a table cell.
+	fn render_cell(tokens: &[Token]) -> String {
+		let mut row_string = String::new();
+		for token in tokens.iter() {
+			match token {
+				Token::Plaintext(s) => {
+					row_string.push_str(&Self::sanitize_display_text(&s))
+				}
+				Token::Italic(t) => row_string.push_str(
+					format!("<em>{}</em>", Self::sanitize_display_text(t))
+						.as_str(),
+				),
+				Token::Bold(t) => row_string.push_str(
+					format!(
+						"<strong>{}</strong>",
+						Self::sanitize_display_text(t)
+					)
+					.as_str(),
+				),
+				Token::BoldItalic(t) => row_string.push_str(
+					format!(
+						"<strong><em>{}</em></strong>",
+						Self::sanitize_display_text(t)
+					)
+					.as_str(),
+				),
+				Token::LineBreak => row_string.push_str("<br>"),
+				Token::HorizontalRule => row_string.push_str("<hr />"),
+				Token::Strikethrough(t) => row_string.push_str(
+					format!(
+						"<strike>{}</strike>",
+						Self::sanitize_display_text(t)
+					)
+					.as_str(),
+				),
+				_ => row_string.push_str(Self::strip_paragraph(&Self::parse(
+					std::slice::from_ref(token),
+				))),
+			}
+		}
+		row_string
+	}
+
 	/// Renders the text of a list item, usually a single paragraph whose tags
 	/// are left out.
 	fn render_list_item(source: &str) -> String {
-- 
2.43.0


From 2853279f1f1c6f7913eb98bac4218f4e2edb34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:22 +0000
Subject: [PATCH 059/101] fix: escaped markers do not end emphasis,
 strikethrough or link texts

---
 gfm/src/iter.rs  | 28 ++++++++++++++++++++++++++++
 gfm/src/lexer.rs | 32 ++++++++------------------------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index ee51dc8..09a7481 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -120,6 +120,34 @@ impl<'a> MarkdownIter<'a> {
 			.is_some_and(|end| !rest[..end].contains("\n\n"))
 	}
 
+	/// Like [Self::is_ahead_in_paragraph] for characters without a backslash
+	/// before them.
+	pub fn is_unescaped_ahead_in_paragraph(&self, characters: &[char]) -> bool {
+		let rest = &self.the_str[self.index..];
+		let mut chars = rest.split("\n\n").next().unwrap_or("").chars();
+		while let Some(c) = chars.next() {
+			if characters.contains(&c) {
+				return true;
+			}
+			if c == '\\' {
+				chars.next();
+			}
+		}
+		false
+	}
+
+	/// Consumes up to one of `characters` without a backslash before it.
+	pub fn consume_until_unescaped(&mut self, characters: &[&str]) -> &'a str {
+		let start_index = self.index;
+		while let Some(c) = self.peek().filter(|c| !characters.contains(c)) {
+			self.next();
+			if c == "\\" && self.peek().is_some() {
+				self.next();
+			}
+		}
+		self.the_str.get(start_index..self.index).unwrap_or("")
+	}
+
 	pub fn peek_line_ahead(&self) -> Option<&'a str> {
 		match self.find_next("\n") {
 			Some(newline_index) => {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 1c87412..fc377d7 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -409,17 +409,13 @@ impl<'a> Lexer<'a> {
 			return Ok(Token::HorizontalRule);
 		}
 		if asterunds.len() <= 3 &&
-			!self.iter.is_ahead_in_paragraph("*") &&
-			!self.iter.is_ahead_in_paragraph("_")
+			!self.iter.is_unescaped_ahead_in_paragraph(&['*', '_'])
 		{
 			return Err(ParseError { content: asterunds });
 		}
 		match asterunds.len() {
 			1 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
+				let s = self.iter.consume_until_unescaped(&["*", "_"]);
 				if self.iter.peek() != Some("*") ||
 					self.iter.peek() != Some("_")
 				{
@@ -435,10 +431,7 @@ impl<'a> Lexer<'a> {
 				}
 			}
 			2 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
+				let s = self.iter.consume_until_unescaped(&["*", "_"]);
 				let trailing_astunds = self
 					.iter
 					.consume_while_case_holds(&|c| c == "*" || c == "_")
@@ -455,10 +448,7 @@ impl<'a> Lexer<'a> {
 				}
 			}
 			3 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
+				let s = self.iter.consume_until_unescaped(&["*", "_"]);
 				let trailing_astunds = self
 					.iter
 					.consume_while_case_holds(&|c| c == "*" || c == "_")
@@ -605,16 +595,13 @@ impl<'a> Lexer<'a> {
 					content: lead_tildes,
 				})
 			}
-			2 if !self.iter.is_ahead_in_paragraph("~") => {
+			2 if !self.iter.is_unescaped_ahead_in_paragraph(&['~']) => {
 				return Err(ParseError {
 					content: lead_tildes,
 				})
 			}
 			2 => {
-				let line = self
-					.iter
-					.consume_while_case_holds(&|s| s != "~")
-					.unwrap_or("");
+				let line = self.iter.consume_until_unescaped(&["~"]);
 				let tail_tildes = self
 					.iter
 					.consume_while_case_holds(&|s| s == "~")
@@ -707,13 +694,10 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("[") != Some(&"[") {
 			return Err(ParseError { content: "" });
 		}
-		if !self.iter.is_ahead_in_paragraph("]") {
+		if !self.iter.is_unescaped_ahead_in_paragraph(&[']']) {
 			return Err(ParseError { content: "[" });
 		}
-		let title = self
-			.iter
-			.consume_while_case_holds(&|c| c != "]")
-			.unwrap_or("");
+		let title = self.iter.consume_until_unescaped(&["]"]);
 		if self.iter.next_if_eq("]") != Some(&"]") {
 			return Err(ParseError {
 				content: self
-- 
2.43.0


From e2dda896972454dfa4cd5166081db20ef5a7d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:43 +0000
Subject: [PATCH 060/101] fix: a blank line after pipe lines that are no table
 ends the paragraph

---
 gfm/src/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index fc377d7..5ccf76e 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -985,6 +985,10 @@ impl<'a> Lexer<'a> {
 					.consume_while_case_holds(&|c| c != "\n")
 					.unwrap_or(""),
 			);
+			// a blank line after lines that are no table ends their paragraph
+			if self.iter.get_substring_ahead(2) == Some("\n\n") {
+				break;
+			}
 			self.iter.next();
 		}
 		if lines.len() < 3 {
-- 
2.43.0


From 2e57b2cb33d4cbf1b62c62271a85960094c1e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:54 +0000
Subject: [PATCH 061/101] fix: an underscore and a blank do not start a list

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 5ccf76e..9953938 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -388,7 +388,7 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
 			.unwrap_or("");
-		if asterunds.len() == 1 &&
+		if asterunds == "*" &&
 			at_line_start &&
 			self.iter.next_if_eq(" ").is_some()
 		{
-- 
2.43.0


From 06d3a08efdd6554a9d33c482a8989454c85ac790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 062/101] fix: a heading holds inline content only, no list,
 quotation or other block

---
 gfm/src/iter.rs  | 12 +++++++++++-
 gfm/src/lexer.rs | 10 ++++++++--
 gfm/src/lib.rs   |  9 ++++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 09a7481..382a73c 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -3,6 +3,7 @@
 pub struct MarkdownIter<'a> {
 	the_str: &'a str,
 	index:   usize,
+	in_line: bool,
 }
 
 impl<'a> Iterator for MarkdownIter<'a> {
@@ -25,6 +26,15 @@ impl<'a> MarkdownIter<'a> {
 		MarkdownIter {
 			the_str: source,
 			index:   0,
+			in_line: false,
+		}
+	}
+
+	/// Iterates over a part of a line, which no block can start.
+	pub fn new_in_line(source: &'a str) -> MarkdownIter<'a> {
+		MarkdownIter {
+			in_line: true,
+			..MarkdownIter::new(source)
 		}
 	}
 
@@ -89,7 +99,7 @@ impl<'a> MarkdownIter<'a> {
 	/// Whether only blanks precede the current position on its line.
 	pub fn at_line_start(&self) -> bool {
 		let before = self.the_str[..self.index].trim_end_matches([' ', '\t']);
-		before.is_empty() || before.ends_with('\n')
+		!self.in_line && (before.is_empty() || before.ends_with('\n'))
 	}
 
 	/// Whether the line before the current position is blank.
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 9953938..005f31c 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -45,6 +45,13 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
+	/// Initializes a new Lexer for inline content, part of a single line.
+	pub fn new_in_line(input: &'a str) -> Self {
+		Lexer {
+			iter: MarkdownIter::new_in_line(input),
+		}
+	}
+
 	/// Produces the next token or returns None when done.
 	pub fn next_token(
 		&mut self,
@@ -238,10 +245,9 @@ impl<'a> Lexer<'a> {
 		if line.chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
-		let rendered = Parser::render_ignore(
+		let rendered = Parser::render_in_line(
 			line_without_optional_trailing_hash_sequence
 				.trim_matches([' ', '\t']),
-			&['#'],
 		);
 		let parsed_line = rendered
 			.strip_prefix("<p>")
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 9b8278c..95add97 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -32,13 +32,16 @@ impl Parser {
 		Self::parse(&Self::lex(source, &[]))
 	}
 
-	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore))
+	pub(crate) fn render_in_line(source: &str) -> String {
+		Self::parse(&Self::lex_with(Lexer::new_in_line(source), &[]))
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
 		debug!("Lexing source with ignore list: {:?}", ignore);
-		let mut l = Lexer::new(source);
+		Self::lex_with(Lexer::new(source), ignore)
+	}
+
+	fn lex_with<'a>(mut l: Lexer<'a>, ignore: &[char]) -> Vec<Token<'a>> {
 		let mut tokens = Vec::new();
 
 		while let Some(token) = l.next_token(ignore, &tokens) {
-- 
2.43.0


From 901996ff870e280710b67a6359ad59d26bc1b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:18 +0000
Subject: [PATCH 063/101] fix: table cells hold inline content only, block
 markers in them are text

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 95add97..986e442 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -588,7 +588,7 @@ impl Parser {
 
 	/// Lexes a table cell, which holds inline content only.
 	pub(crate) fn lex_cell(source: &str) -> Vec<Token<'_>> {
-		let tokens = Self::lex(source, &[]);
+		let tokens = Self::lex_with(Lexer::new_in_line(source), &[]);
 		match tokens.iter().all(|token| token.is_usable_in_table()) {
 			true => tokens,
 			false => vec![Token::Plaintext(source.to_string())],
-- 
2.43.0


From 11cdf9988f7a46fedbaf869a6fb98624935f81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 064/101] fix: keep text that only resembles a footnote
 reference

---
 gfm/src/lib.rs | 67 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 986e442..a8c321e 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -189,35 +189,52 @@ impl Parser {
 					});
 
 					if t.contains("[^") && t.contains("]") {
-						let plaintext_tokens = t.split("[^");
 						let mut s = String::new();
-						for tok in plaintext_tokens {
-							if tok.trim_end().ends_with("]") {
-								let tok = tok.trim_end().trim_end_matches(']');
-								if !cited.iter().any(|c| c == tok) {
-									cited.push(tok.to_string());
+						let mut text = t.as_str();
+						while let Some((before, after)) = text.split_once("[^")
+						{
+							// anything but a reference is text
+							let label = match after.split_once(']') {
+								Some((label, rest))
+									if !label.is_empty() &&
+										!before.ends_with('\\') =>
+								{
+									text = rest;
+									s.push_str(&Self::sanitize_display_text(
+										before,
+									));
+									label
 								}
-								s.push_str(
-									format!(
-										"<sup id=\"fnref:{reference}\" \
-										 role=\"doc-noteref\"><a \
-										 href=\"#fn:{reference}\" \
-										 class=\"footnote\" \
-										 rel=\"footnote\">{ref_count}</a></\
-										 sup>",
-										reference =
-											Self::sanitize_display_text(tok),
-										ref_count = cited
-											.iter()
-											.take_while(|c| *c != tok)
-											.count() + 1
-									)
-									.as_str(),
-								);
-							} else {
-								s.push_str(&Self::sanitize_display_text(tok))
+								_ => {
+									let end = before.len() + 2;
+									s.push_str(&Self::sanitize_display_text(
+										&text[..end],
+									));
+									text = after;
+									continue;
+								}
+							};
+							if !cited.iter().any(|c| c == label) {
+								cited.push(label.to_string());
 							}
+							s.push_str(
+								format!(
+									"<sup id=\"fnref:{reference}\" \
+									 role=\"doc-noteref\"><a \
+									 href=\"#fn:{reference}\" \
+									 class=\"footnote\" \
+									 rel=\"footnote\">{ref_count}</a></sup>",
+									reference =
+										Self::sanitize_display_text(label),
+									ref_count = cited
+										.iter()
+										.take_while(|c| *c != label)
+										.count() + 1
+								)
+								.as_str(),
+							);
 						}
+						s.push_str(&Self::sanitize_display_text(text));
 						html.push_str(&s);
 					} else if t == "\\" {
 						html.push_str(&t);
-- 
2.43.0


From e2f3e5904aa10dc0c3a9ee597f0f843c868aa52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:22 +0000
Subject: [PATCH 065/101] fix: escaped braces in a heading are no id

---
 gfm/src/lexer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 005f31c..48e179c 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -229,9 +229,15 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		let mut label = None;
 		if let Some((heading, title)) = line.rsplit_once("{#") {
-			if let Some(id) = title.trim_end().strip_suffix('}') {
-				line = heading;
-				label = Some(id.to_string());
+			// escaped braces are text
+			match title.trim_end().strip_suffix('}') {
+				Some(id)
+					if !heading.ends_with('\\') && !id.ends_with('\\') =>
+				{
+					line = heading;
+					label = Some(id.to_string());
+				}
+				_ => {}
 			}
 		}
 		let line_without_optional_trailing_hash_sequence =
-- 
2.43.0


From 391c9883ab1ae188a6a01be62f27a06222ba7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 066/101] fix: a backslash at the end of a paragraph is text
 and does not join it to the next

---
 gfm/src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 48e179c..dea8fd3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -384,7 +384,11 @@ impl<'a> Lexer<'a> {
 			return Ok(Token::Plaintext(hashes.to_string()));
 		} else if self.iter.peek().is_some_and(|c| {
 			c == "\n" || c.chars().all(|c| c.is_ascii_punctuation())
-		}) {
+		}) && !self
+			.iter
+			.peek_until_end()
+			.is_some_and(|text| text == "\n" || text.starts_with("\n\n"))
+		{
 			return Ok(Token::Plaintext(
 				self.iter.next().unwrap_or_default().to_string(),
 			));
-- 
2.43.0


From 85732ae4517e501402464c4a5309794274648461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:46 +0000
Subject: [PATCH 067/101] fix: a quoted link title ends at the quote that ends
 the link

---
 gfm/src/lexer.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index dea8fd3..64f3327 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -815,10 +815,15 @@ impl<'a> Lexer<'a> {
 			}
 		}
 		if self.iter.peek() == Some(&" ") {
-			let hover = self
-				.iter
-				.consume_while_case_holds(&|c| c != ")")
-				.unwrap_or("");
+			let hover = match self.lex_quoted_title() {
+				Some(hover) => hover,
+				None => self
+					.iter
+					.consume_while_case_holds(&|c| c != ")")
+					.unwrap_or("")
+					.trim()
+					.trim_matches(['"', '\'']),
+			};
 
 			if self.iter.next_if_eq(")").is_none() {
 				return Err(ParseError {
@@ -828,7 +833,6 @@ impl<'a> Lexer<'a> {
 						.unwrap_or(""),
 				});
 			}
-			let hover = hover.trim().trim_matches(['"', '\'']);
 			match validate_link(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
@@ -850,6 +854,28 @@ impl<'a> Lexer<'a> {
 		Err(ParseError { content: "" })
 	}
 
+	/// Consumes a quoted title, up to the quote that ends the link.
+	fn lex_quoted_title(&mut self) -> Option<&'a str> {
+		let text = self.iter.peek_until_end()?;
+		let title = text.trim_start_matches(' ');
+		let start = self.iter.get_index() + text.len() - title.len() + 1;
+		let quote = title.chars().next().filter(|c| "\"'".contains(*c))?;
+		let title = title[1..].split("\n\n").next()?;
+		let mut escaped = false;
+		for (i, c) in title.char_indices() {
+			let after = title[i + c.len_utf8()..].trim_start_matches(' ');
+			if c == quote && !escaped && after.starts_with(')') {
+				let end = start + title.len() - after.len();
+				while self.iter.get_index() < end {
+					self.iter.next();
+				}
+				return Some(&title[..i]);
+			}
+			escaped = c == '\\' && !escaped;
+		}
+		None
+	}
+
 	pub(crate) fn lex_images(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		if self.iter.next_if_eq("!") != Some(&"!") {
-- 
2.43.0


From 7e7d0c649dd10584d32cbb58b17ecbd999140589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:32 +0000
Subject: [PATCH 068/101] fix: don't panic on environment variables that aren't
 unicode

---
 smd-core/src/config.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 477a810..1c7c1ae 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,6 +9,7 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
+use std::env;
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 #[serde(default)]
@@ -48,7 +49,21 @@ impl Config {
 				content,
 				config::FileFormat::Toml,
 			))
-			.add_source(config::Environment::with_prefix("SMD").separator("__"))
+			.add_source(
+				config::Environment::with_prefix("SMD")
+					.separator("__")
+					// The default source panics on values that aren't unicode.
+					.source(Some(
+						env::vars_os()
+							.map(|(key, value)| {
+								(
+									key.to_string_lossy().into_owned(),
+									value.to_string_lossy().into_owned(),
+								)
+							})
+							.collect(),
+					)),
+			)
 			.build()?
 			.try_deserialize()?)
 	}
-- 
2.43.0


From bdaa93c5adc49456b7b9fcfd1bf7baa55c69d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:34 +0000
Subject: [PATCH 069/101] fix: refuse to overwrite the input through a hard
 link

---
 smd/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index f3b5351..d80430a 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -15,6 +15,7 @@ use smd_core::{
 	},
 	fs,
 };
+use std::path::Path;
 
 pub mod args;
 pub mod logger;
@@ -22,6 +23,20 @@ pub mod logger;
 const HTML_FILE_ENDING: &str = "html";
 const PDF_FILE_ENDING: &str = "pdf";
 
+/// Whether writing to `out` would overwrite `input`.
+fn is_same_file(input: &Path, out: &Path) -> bool {
+	#[cfg(unix)]
+	{
+		use std::os::unix::fs::MetadataExt;
+
+		if let (Ok(a), Ok(b)) = (input.metadata(), out.metadata()) {
+			return a.dev() == b.dev() && a.ino() == b.ino();
+		}
+	}
+
+	out.canonicalize().is_ok_and(|out| out == input)
+}
+
 /// Runs `smd`.
 pub fn run(cli: Cli) -> Result<()> {
 	if Commands::Initialize == cli.commands {
@@ -43,7 +58,7 @@ pub fn run(cli: Cli) -> Result<()> {
 				args::OutputFileFormat::Html => HTML_FILE_ENDING,
 				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
 			});
-			if out_path.canonicalize().is_ok_and(|out| out == args.input) {
+			if is_same_file(&args.input, &out_path) {
 				return Err(Error::CustomError(format!(
 					"{} would overwrite the input file",
 					out_path.display()
-- 
2.43.0


From b71ff93e34b1491dd7a14a09c80dc0e63d120fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:49 +0000
Subject: [PATCH 070/101] fix: treat CRLF as a line end

A carriage return before the newline kept blank lines from being
recognized, so paragraphs of files with CRLF line ends ran together.
---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index a8c321e..0b26e69 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -29,7 +29,7 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(source, &[]))
+		Self::parse(&Self::lex(&source.replace("\r\n", "\n"), &[]))
 	}
 
 	pub(crate) fn render_in_line(source: &str) -> String {
-- 
2.43.0


From ccbb0cf4455db397b31b5eaf7bf1bb40217e5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:09 +0000
Subject: [PATCH 071/101] fix: a line of blanks is a blank line

---
 gfm/src/iter.rs  | 40 ++++++++++++++++++++++++++++++++-----
 gfm/src/lexer.rs | 51 ++++++++++++++++++++++++++++--------------------
 2 files changed, 65 insertions(+), 26 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 382a73c..a856d56 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -6,6 +6,23 @@ pub struct MarkdownIter<'a> {
 	in_line: bool,
 }
 
+/// Whether a line consists of nothing but blanks.
+pub fn is_blank(line: &str) -> bool {
+	line.trim_matches([' ', '\t', '\n']).is_empty()
+}
+
+/// The part of `text` before its first blank line.
+pub fn until_blank_line(text: &str) -> &str {
+	let mut end = 0;
+	for line in text.split_inclusive('\n') {
+		if end > 0 && line.ends_with('\n') && is_blank(line) {
+			break;
+		}
+		end += line.len();
+	}
+	&text[..end]
+}
+
 impl<'a> Iterator for MarkdownIter<'a> {
 	type Item = &'a str;
 
@@ -104,7 +121,10 @@ impl<'a> MarkdownIter<'a> {
 
 	/// Whether the line before the current position is blank.
 	pub fn after_blank_line(&self) -> bool {
-		self.the_str[..self.index].ends_with("\n\n")
+		self.the_str[..self.index]
+			.strip_suffix('\n')
+			.and_then(|before| before.rsplit('\n').next())
+			.is_some_and(is_blank)
 	}
 
 	pub fn get_index(&self) -> usize {
@@ -125,16 +145,14 @@ impl<'a> MarkdownIter<'a> {
 
 	/// Whether `pattern` occurs before the end of the current paragraph.
 	pub fn is_ahead_in_paragraph(&self, pattern: &str) -> bool {
-		let rest = &self.the_str[self.index..];
-		rest.find(pattern)
-			.is_some_and(|end| !rest[..end].contains("\n\n"))
+		until_blank_line(&self.the_str[self.index..]).contains(pattern)
 	}
 
 	/// Like [Self::is_ahead_in_paragraph] for characters without a backslash
 	/// before them.
 	pub fn is_unescaped_ahead_in_paragraph(&self, characters: &[char]) -> bool {
 		let rest = &self.the_str[self.index..];
-		let mut chars = rest.split("\n\n").next().unwrap_or("").chars();
+		let mut chars = until_blank_line(rest).chars();
 		while let Some(c) = chars.next() {
 			if characters.contains(&c) {
 				return true;
@@ -170,6 +188,18 @@ impl<'a> MarkdownIter<'a> {
 		}
 	}
 
+	/// Consumes blank lines, whether there are any.
+	pub fn consume_blank_lines(&mut self) -> bool {
+		let start_index = self.index;
+		while self
+			.peek_line_ahead()
+			.is_some_and(|line| line.ends_with('\n') && is_blank(line))
+		{
+			self.consume_line_ahead();
+		}
+		self.index > start_index
+	}
+
 	pub fn consume_line_ahead(&mut self) -> Option<&'a str> {
 		match self.find_next("\n") {
 			Some(newline_index) => {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 64f3327..fefe8a3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -14,7 +14,11 @@ use crate::{
 };
 
 use super::{
-	iter::MarkdownIter,
+	iter::{
+		is_blank,
+		until_blank_line,
+		MarkdownIter,
+	},
 	token::{
 		TaskBox,
 		Token,
@@ -267,7 +271,11 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		match self.iter.consume_while_case_holds(&|c| c == "\n") {
+		let newlines = self.iter.consume_while_case_holds(&|c| c == "\n");
+		if self.iter.consume_blank_lines() {
+			return Ok(Token::Newline);
+		}
+		match newlines {
 			Some(s) if s.len() >= 2 => Ok(Token::Newline),
 			Some(s) if s.len() < 2 => Err(ParseError { content: s }),
 			_ => Err(ParseError { content: "" }),
@@ -284,6 +292,10 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
 
+		if at_line_start && matches!(self.iter.peek(), None | Some("\n")) {
+			self.iter.consume_blank_lines();
+			return Ok(Token::Newline);
+		}
 		match whitespace {
 			None => return Err(ParseError { content: "" }),
 			Some(s) if (1..=3).contains(&s.len()) && !s.contains("\t") => {
@@ -324,22 +336,16 @@ impl<'a> Lexer<'a> {
 		let mut code = whitespace[indent..].to_owned() + line;
 
 		// blank lines belong to the code if more of it follows them
-		let blanks = (1..)
-			.take_while(|n| {
-				self.iter
-					.get_substring_ahead(*n)
-					.is_some_and(|ahead| ahead.ends_with('\n'))
-			})
-			.count();
-		let code_follows = |indent: &str| {
-			self.iter
-				.get_substring_ahead(blanks + indent.len())
-				.is_some_and(|ahead| ahead.ends_with(indent))
-		};
-		if code_follows("\t") || code_follows("    ") {
-			for _ in 0..blanks {
-				code.push('\n');
-				self.iter.next();
+		let ahead = self.iter.peek_until_end().unwrap_or("");
+		let blanks: Vec<&str> = ahead
+			.split_inclusive('\n')
+			.take_while(|l| l.ends_with('\n') && is_blank(l))
+			.collect();
+		let after = &ahead[blanks.iter().map(|l| l.len()).sum()..];
+		if after.starts_with('\t') || after.starts_with("    ") {
+			for blank in blanks {
+				code.push_str(&blank[4.min(blank.len() - 1)..]);
+				self.iter.consume_line_ahead();
 			}
 		}
 		Ok(Token::Code(code))
@@ -387,7 +393,8 @@ impl<'a> Lexer<'a> {
 		}) && !self
 			.iter
 			.peek_until_end()
-			.is_some_and(|text| text == "\n" || text.starts_with("\n\n"))
+			.and_then(|text| text.strip_prefix('\n'))
+			.is_some_and(|text| text.split('\n').next().is_none_or(is_blank))
 		{
 			return Ok(Token::Plaintext(
 				self.iter.next().unwrap_or_default().to_string(),
@@ -581,6 +588,7 @@ impl<'a> Lexer<'a> {
 			.iter
 			.peek_line_ahead()
 			.filter(|l| l.starts_with("  ") || l.starts_with('\t'))
+			.filter(|l| !is_blank(l))
 		{
 			self.iter.consume_line_ahead();
 			if let Some(rest) = line.strip_prefix('\t') {
@@ -733,7 +741,8 @@ impl<'a> Lexer<'a> {
 				self.iter.consume_while_case_holds(&|c| c != "\n");
 				self.iter.next();
 				if self.iter.peek() != Some(&" ") &&
-					self.iter.peek() != Some(&"\t")
+					self.iter.peek() != Some(&"\t") ||
+					self.iter.peek_line_ahead().is_some_and(is_blank)
 				{
 					break;
 				}
@@ -860,7 +869,7 @@ impl<'a> Lexer<'a> {
 		let title = text.trim_start_matches(' ');
 		let start = self.iter.get_index() + text.len() - title.len() + 1;
 		let quote = title.chars().next().filter(|c| "\"'".contains(*c))?;
-		let title = title[1..].split("\n\n").next()?;
+		let title = until_blank_line(&title[1..]);
 		let mut escaped = false;
 		for (i, c) in title.char_indices() {
 			let after = title[i + c.len_utf8()..].trim_start_matches(' ');
-- 
2.43.0


From fa7d0f80f7bbea36f13be3c6da58c847e8f0ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:47 +0000
Subject: [PATCH 072/101] fix: nest lists below ordered and task items

---
 gfm/src/lexer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index fefe8a3..47c7fb4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -374,7 +374,8 @@ impl<'a> Lexer<'a> {
 					.iter
 					.consume_while_case_holds(&|c| c != "\n")
 					.unwrap_or("");
-				Ok(Token::OrderedListEntry(s.to_string()))
+				self.iter.next_if_eq("\n");
+				Ok(Token::OrderedListEntry(s.to_string() + &self.lex_nested()))
 			}
 			_ => Err(ParseError { content: c }),
 		}
@@ -565,12 +566,12 @@ impl<'a> Lexer<'a> {
 		if line.starts_with(" [ ] ") {
 			Ok(Token::TaskListItem(
 				TaskBox::Unchecked,
-				line[5..].to_string(),
+				line[5..].to_string() + &self.lex_nested(),
 			))
 		} else if line.starts_with(" [x] ") || line.starts_with(" [X] ") {
 			return Ok(Token::TaskListItem(
 				TaskBox::Checked,
-				line[5..].to_string(),
+				line[5..].to_string() + &self.lex_nested(),
 			));
 		} else {
 			// List entries may contain other lists
@@ -579,6 +580,14 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
+	/// The indented lines below a list entry, to be appended to its text.
+	fn lex_nested(&mut self) -> String {
+		match self.lex_indented_lines() {
+			Some(Token::Plaintext(lines)) => "\n".to_string() + &lines,
+			_ => String::new(),
+		}
+	}
+
 	/// Consumes the indented lines that belong to a list entry, without their
 	/// common indent.
 	fn lex_indented_lines(&mut self) -> Option<Token<'a>> {
-- 
2.43.0


From 1f94daf5c42ac9cf7f982b230aa5be6acfa152c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:36 +0000
Subject: [PATCH 073/101] fix: a tab may follow a list marker

---
 gfm/src/lexer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 47c7fb4..f8a40a4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -361,7 +361,9 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		match self.iter.next_if_eq(".") {
 			Some(".") => {
-				if self.iter.next_if_eq(" ") != Some(" ") {
+				if self.iter.next_if_eq(" ").is_none() &&
+					self.iter.next_if_eq("\t").is_none()
+				{
 					return Err(ParseError {
 						content: self
 							.iter
@@ -412,9 +414,9 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
 			.unwrap_or("");
-		if asterunds == "*" &&
-			at_line_start &&
-			self.iter.next_if_eq(" ").is_some()
+		if at_line_start &&
+			(asterunds == "*\t" ||
+				asterunds == "*" && self.iter.next_if_eq(" ").is_some())
 		{
 			let s = self
 				.iter
@@ -543,6 +545,10 @@ impl<'a> Lexer<'a> {
 				})
 			}
 		}
+		// the tab after the bullet does not indent the text
+		if self.iter.get_substring_ahead(2) != Some("\t\t") {
+			self.iter.next_if_eq("\t");
+		}
 		let line_index = self.iter.get_index();
 		let mut list_element_tokens = vec![Token::Plaintext(
 			self.iter
-- 
2.43.0


From 3963c05aa5f11e7818a6dc9a72735c2434ba6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:28 +0000
Subject: [PATCH 074/101] fix: a box after any bullet makes a task

---
 gfm/src/lexer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f8a40a4..d17e7dd 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -416,16 +416,9 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		if at_line_start &&
 			(asterunds == "*\t" ||
-				asterunds == "*" && self.iter.next_if_eq(" ").is_some())
+				asterunds == "*" && self.iter.peek() == Some(" "))
 		{
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "\n")
-				.unwrap_or("");
-			self.iter.next();
-			let mut list_element_tokens = vec![Token::Plaintext(s.to_string())];
-			list_element_tokens.extend(self.lex_indented_lines());
-			return Ok(Token::UnorderedListEntry(list_element_tokens));
+			return self.lex_list_item();
 		}
 		if at_line_start &&
 			asterunds.len() >= 3 &&
@@ -545,6 +538,11 @@ impl<'a> Lexer<'a> {
 				})
 			}
 		}
+		self.lex_list_item()
+	}
+
+	/// What follows a bullet.
+	fn lex_list_item(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		// the tab after the bullet does not indent the text
 		if self.iter.get_substring_ahead(2) != Some("\t\t") {
 			self.iter.next_if_eq("\t");
@@ -569,6 +567,7 @@ impl<'a> Lexer<'a> {
 		}
 		let line = self.iter.get_substring_from(line_index).unwrap_or("");
 		self.iter.next_if_eq("\n");
+		let line = " ".to_string() + line.trim_start_matches(' ');
 		if line.starts_with(" [ ] ") {
 			Ok(Token::TaskListItem(
 				TaskBox::Unchecked,
-- 
2.43.0


From c410a9890d2fa2983cbcba75b90e52e542ac2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 075/101] fix: code in a list item is not indented further

---
 gfm/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 0b26e69..904549e 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -305,11 +305,7 @@ impl Parser {
 							}
 							Token::Plaintext(text) => {
 								let text =
-									&Self::render(text.trim_start_matches(" "))
-										.replace(
-											"<pre><code>",
-											"<pre><code>  ",
-										);
+									&Self::render(text.trim_start_matches(" "));
 								html.push_str(text);
 							}
 							_ => {}
-- 
2.43.0


From f8352f118e7004ba00f4e3c146da2d0691b9cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:56 +0000
Subject: [PATCH 076/101] fix: keep tabs in quoted code

---
 gfm/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 904549e..2adf57a 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -436,8 +436,7 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(t.trim_start_matches(" "))
-								.replace("\t", "  "),
+							&Self::render(t.trim_start_matches(" ")),
 						);
 					}
 				}
-- 
2.43.0


From 3943b0e5bf9b0265e04b60ab4d7da753e5f1a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:43 +0000
Subject: [PATCH 077/101] fix: quoted lines of a level are one quotation

---
 gfm/src/lexer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d17e7dd..227d642 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -506,7 +506,20 @@ impl<'a> Lexer<'a> {
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
 		self.iter.next_if_eq("\n");
-		Ok(Token::BlockQuote(right_arrows.len() as u8, s.to_string()))
+		let mut quote = s.to_string();
+		// what follows at the same level is part of the same quotation
+		while let Some(line) = self
+			.iter
+			.peek_line_ahead()
+			.and_then(|line| line.strip_prefix(right_arrows))
+			.filter(|line| !line.starts_with('>'))
+		{
+			let line = line.strip_prefix(' ').unwrap_or(line);
+			quote.push('\n');
+			quote.push_str(line.trim_end_matches('\n'));
+			self.iter.consume_line_ahead();
+		}
+		Ok(Token::BlockQuote(right_arrows.len() as u8, quote))
 	}
 
 	pub(crate) fn lex_plus_minus(
-- 
2.43.0


From 2f4ecb4465b25a3cc78914faebac21922ae7cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:00 +0000
Subject: [PATCH 078/101] fix: indented code may be quoted

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 2adf57a..29642b4 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -436,7 +436,7 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(t.trim_start_matches(" ")),
+							&Self::render(t.strip_prefix(" ").unwrap_or(t)),
 						);
 					}
 				}
-- 
2.43.0


From 8df933d5ad391ef7bfbf70b79e92c29f9d2615be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 079/101] fix: lines below a bullet continue its text

---
 gfm/src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 227d642..1ab0032 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -593,7 +593,11 @@ impl<'a> Lexer<'a> {
 			));
 		} else {
 			// List entries may contain other lists
-			list_element_tokens.extend(self.lex_indented_lines());
+			let nested = self.lex_nested();
+			if let Some(Token::Plaintext(text)) = list_element_tokens.last_mut()
+			{
+				text.push_str(&nested);
+			}
 			return Ok(Token::UnorderedListEntry(list_element_tokens));
 		}
 	}
-- 
2.43.0


From b0f0e8733de674293dbbabc85aef13727aefb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 080/101] fix: blanks may follow a rule of asterisks

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 1ab0032..43734a3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -423,7 +423,7 @@ impl<'a> Lexer<'a> {
 		if at_line_start &&
 			asterunds.len() >= 3 &&
 			asterunds.chars().all(|x| x == '*') &&
-			matches!(self.iter.peek(), None | Some("\n"))
+			self.iter.peek_line_ahead().is_none_or(is_blank)
 		{
 			return Ok(Token::HorizontalRule);
 		}
-- 
2.43.0


From b9e6bbf9c895f904c474e92a7d75dd5cd2d1f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:56 +0000
Subject: [PATCH 081/101] fix: blanks may separate the markers of a quotation

---
 gfm/src/lexer.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 43734a3..b7847b7 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -501,6 +501,15 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == ">")
 			.unwrap_or("");
+		// the markers may be apart
+		let mut level = right_arrows.len();
+		while self.iter.get_substring_ahead(2) == Some(" >") ||
+			self.iter.peek() == Some(">")
+		{
+			self.iter.next_if_eq(" ");
+			self.iter.next();
+			level += 1;
+		}
 		let s = self
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
@@ -511,15 +520,28 @@ impl<'a> Lexer<'a> {
 		while let Some(line) = self
 			.iter
 			.peek_line_ahead()
-			.and_then(|line| line.strip_prefix(right_arrows))
-			.filter(|line| !line.starts_with('>'))
+			.and_then(|line| Self::quoted_line(line, level))
 		{
 			let line = line.strip_prefix(' ').unwrap_or(line);
 			quote.push('\n');
 			quote.push_str(line.trim_end_matches('\n'));
 			self.iter.consume_line_ahead();
 		}
-		Ok(Token::BlockQuote(right_arrows.len() as u8, quote))
+		Ok(Token::BlockQuote(level as u8, quote))
+	}
+
+	/// The content of a line that is quoted at this level.
+	fn quoted_line(line: &str, level: usize) -> Option<&str> {
+		let mut rest = line.strip_prefix('>')?;
+		let mut found = 1;
+		while let Some(text) = rest
+			.strip_prefix('>')
+			.or_else(|| rest.strip_prefix(" >"))
+		{
+			rest = text;
+			found += 1;
+		}
+		(found == level).then_some(rest)
 	}
 
 	pub(crate) fn lex_plus_minus(
-- 
2.43.0


From 5f670718c1f27106aab3cf850e1533c7272b08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:31 +0000
Subject: [PATCH 082/101] fix: quotations may be deeper than 255 levels

---
 gfm/src/lexer.rs | 2 +-
 gfm/src/token.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b7847b7..e64b606 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -527,7 +527,7 @@ impl<'a> Lexer<'a> {
 			quote.push_str(line.trim_end_matches('\n'));
 			self.iter.consume_line_ahead();
 		}
-		Ok(Token::BlockQuote(level as u8, quote))
+		Ok(Token::BlockQuote(level, quote))
 	}
 
 	/// The content of a line that is quoted at this level.
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index bb4b2fb..b797ad1 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -44,8 +44,8 @@ pub enum Token<'a> {
 	/// First str: Text to be placed within a multi-line code tag. Second str:
 	/// Language
 	CodeBlock(String, String),
-	/// u8: Block quote level. str: Block quote text
-	BlockQuote(u8, String),
+	/// usize: Block quote level. str: Block quote text
+	BlockQuote(usize, String),
 	/// str: Link. Option<str>: Title for link.
 	Image(String, Option<String>),
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
-- 
2.43.0


From 3904dbebabe4949cd9c0e87ef7a1df34c5f176ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:45 +0000
Subject: [PATCH 083/101] fix: a rule is alone on its line

---
 gfm/src/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index e64b606..d71056f 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -485,6 +485,7 @@ impl<'a> Lexer<'a> {
 			}
 			_ => {
 				if at_line_start &&
+					self.iter.peek_line_ahead().is_none_or(is_blank) &&
 					(asterunds.replace("\t", "").chars().all(|x| x == '*') ||
 						asterunds.chars().all(|x| x == '_'))
 				{
@@ -553,8 +554,13 @@ impl<'a> Lexer<'a> {
 			.consume_while_case_holds(&|c| c == "-" || c == "+")
 			.unwrap_or("");
 		match s.len() {
-			3..=usize::MAX => return Ok(Token::HorizontalRule),
-			2 => {
+			3..=usize::MAX
+				if !s.contains('+') &&
+					self.iter.peek_line_ahead().is_none_or(is_blank) =>
+			{
+				return Ok(Token::HorizontalRule)
+			}
+			2..=usize::MAX => {
 				return Err(ParseError {
 					content: self
 						.iter
-- 
2.43.0


From b8f26df9ceace8284e52d848192c4d669b1fbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:12 +0000
Subject: [PATCH 084/101] fix: a quotation marker in quoted code is code

A line of a quoted fenced block that starts with > left the block.
---
 gfm/src/lexer.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d71056f..d0b3ae5 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -517,13 +517,13 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		self.iter.next_if_eq("\n");
 		let mut quote = s.to_string();
+		let mut fence = Self::fence_after("", s);
 		// what follows at the same level is part of the same quotation
-		while let Some(line) = self
-			.iter
-			.peek_line_ahead()
-			.and_then(|line| Self::quoted_line(line, level))
-		{
+		while let Some(line) = self.iter.peek_line_ahead().and_then(|line| {
+			Self::quoted_line(line, level, !fence.is_empty())
+		}) {
 			let line = line.strip_prefix(' ').unwrap_or(line);
+			fence = Self::fence_after(fence, line);
 			quote.push('\n');
 			quote.push_str(line.trim_end_matches('\n'));
 			self.iter.consume_line_ahead();
@@ -531,13 +531,15 @@ impl<'a> Lexer<'a> {
 		Ok(Token::BlockQuote(level, quote))
 	}
 
-	/// The content of a line that is quoted at this level.
-	fn quoted_line(line: &str, level: usize) -> Option<&str> {
+	/// The content of a line that is quoted at this level; in a code block
+	/// more markers are part of the code.
+	fn quoted_line(line: &str, level: usize, in_code: bool) -> Option<&str> {
 		let mut rest = line.strip_prefix('>')?;
 		let mut found = 1;
 		while let Some(text) = rest
 			.strip_prefix('>')
 			.or_else(|| rest.strip_prefix(" >"))
+			.filter(|_| found < level || !in_code)
 		{
 			rest = text;
 			found += 1;
@@ -545,6 +547,18 @@ impl<'a> Lexer<'a> {
 		(found == level).then_some(rest)
 	}
 
+	/// The fence of the code block that is open after this line.
+	fn fence_after<'b>(fence: &'b str, line: &'b str) -> &'b str {
+		let line = line.trim();
+		let info = line.trim_start_matches('`');
+		let ticks = &line[..line.len() - info.len()];
+		match fence.is_empty() {
+			true if ticks.len() >= 3 && !info.contains('`') => ticks,
+			false if ticks.len() >= fence.len() && info.is_empty() => "",
+			_ => fence,
+		}
+	}
+
 	pub(crate) fn lex_plus_minus(
 		&mut self,
 	) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From c638f0905f699e42731f6d35601f4d4a2855f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:52 +0000
Subject: [PATCH 085/101] fix: an empty heading may end the document

A line of # was a heading, but text when no newline followed it.
---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d0b3ae5..b388bce 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -223,7 +223,7 @@ impl<'a> Lexer<'a> {
 		}
 		if self.iter.next_if_eq(" ").is_none() &&
 			self.iter.next_if_eq("\t").is_none() &&
-			self.iter.peek() != Some("\n")
+			self.iter.peek().is_some_and(|c| c != "\n")
 		{
 			return Err(ParseError { content: hashes });
 		}
-- 
2.43.0


From 8d0a4a4b9a25ee477f68cb6bcbd15e91ea265912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:57 +0000
Subject: [PATCH 086/101] fix: a tab may precede the closing hashes of a
 heading

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b388bce..3a270df 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -245,7 +245,7 @@ impl<'a> Lexer<'a> {
 			}
 		}
 		let line_without_optional_trailing_hash_sequence =
-			match line.trim_end().rsplit_once(' ') {
+			match line.trim_end().rsplit_once([' ', '\t']) {
 				Some((left, right)) => match right.chars().all(|c| c == '#') {
 					true => left,
 					false => line,
-- 
2.43.0


From 74b4ab019e018246fae45488fc8c78d5fe25ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:51 +0000
Subject: [PATCH 087/101] fix: markers don't pair across blocks

An emphasis marker, a backtick or a bracket was matched with one in the
next heading, list item, quotation, table or other block, which
thereby was not recognized.
---
 gfm/src/iter.rs | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index a856d56..818edf9 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -11,13 +11,53 @@ pub fn is_blank(line: &str) -> bool {
 	line.trim_matches([' ', '\t', '\n']).is_empty()
 }
 
-/// The part of `text` before its first blank line.
+/// Whether a line, followed by another one, starts a block and so ends the
+/// paragraph before it.
+fn starts_block(line: &str, next: &str) -> bool {
+	let text = line.trim_start_matches(' ');
+	if line.len() - text.len() > 3 {
+		return false;
+	}
+	let mark = text.split([' ', '\t', '\n']).next().unwrap_or("");
+	let is_rule =
+		|c| mark.len() >= 3 && text.trim_end().chars().all(|x| x == c);
+	match mark.chars().next() {
+		Some('#') => mark.len() <= 6 && mark.chars().all(|c| c == '#'),
+		Some('>') => true,
+		Some('-') => mark == "-" || is_rule('-'),
+		Some('*') => mark == "*" || is_rule('*'),
+		Some('+') => mark == "+",
+		Some('`') => {
+			text.starts_with("```") &&
+				!text.trim_start_matches('`').contains('`')
+		}
+		Some('0'..='9') => mark
+			.strip_suffix('.')
+			.is_some_and(|n| n.chars().all(|c| c.is_ascii_digit())),
+		Some('[') => {
+			text.starts_with("[^") &&
+				text.split_once(']').is_some_and(|x| x.1.starts_with(':'))
+		}
+		Some('<') => mark == "<details>" || mark == "</details>",
+		Some('|') => {
+			next.starts_with('|') &&
+				next.trim_end().chars().all(|c| "|-: \t".contains(c))
+		}
+		_ => false,
+	}
+}
+
+/// The part of `text` before its first blank line or other block.
 pub fn until_blank_line(text: &str) -> &str {
 	let mut end = 0;
-	for line in text.split_inclusive('\n') {
+	let mut lines = text.split_inclusive('\n').peekable();
+	while let Some(line) = lines.next() {
 		if end > 0 && line.ends_with('\n') && is_blank(line) {
 			break;
 		}
+		if end > 0 && starts_block(line, lines.peek().unwrap_or(&"")) {
+			break;
+		}
 		end += line.len();
 	}
 	&text[..end]
-- 
2.43.0


From 2dea6b208eef82fc9f40cadaa8b92964ce2116f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:24 +0000
Subject: [PATCH 088/101] fix: keep the blanks in code spans

All blanks at both ends were dropped instead of one on each side.
---
 gfm/src/lexer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3a270df..121c755 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -774,10 +774,8 @@ impl<'a> Lexer<'a> {
 			});
 		} else {
 			let s = s.trim_end_matches(tail);
-			if s.starts_with(' ') && s.ends_with(' ') {
-				return Ok(Token::CodeSpan(
-					s.trim_start_matches(' ').trim_end_matches(' ').to_string(),
-				));
+			if s.starts_with(' ') && s.ends_with(' ') && !is_blank(s) {
+				return Ok(Token::CodeSpan(s[1..s.len() - 1].to_string()));
 			}
 			return Ok(Token::CodeSpan(s.to_string()));
 		}
-- 
2.43.0


From 88e615c0d4b1d392287b5f41e6a0a86f02d87211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:05 +0000
Subject: [PATCH 089/101] fix: a code span ends at as many backticks as it
 started with

A longer run inside a span ended it and left the rest as text.
---
 gfm/src/iter.rs  | 16 ++++++++++++++++
 gfm/src/lexer.rs | 31 ++++++++++---------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 818edf9..69ebed9 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -204,6 +204,22 @@ impl<'a> MarkdownIter<'a> {
 		false
 	}
 
+	/// Consumes up to and including a run of backticks exactly as long as
+	/// `run` in the current paragraph, and returns the text before it.
+	pub fn consume_until_run(&mut self, run: &str) -> Option<&'a str> {
+		let text = until_blank_line(&self.the_str[self.index..]);
+		let mut end = 0;
+		while let Some(offset) = text[end..].find('`') {
+			let start = end + offset;
+			end = text.len() - text[start..].trim_start_matches('`').len();
+			if end - start == run.len() {
+				self.index += end;
+				return Some(&text[..start]);
+			}
+		}
+		None
+	}
+
 	/// Consumes up to one of `characters` without a backslash before it.
 	pub fn consume_until_unescaped(&mut self, characters: &[&str]) -> &'a str {
 		let start_index = self.index;
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 121c755..715c326 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -722,7 +722,6 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_backticks(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
 		let at_line_start = self.iter.at_line_start();
 		let leading_ticks = self
 			.iter
@@ -756,28 +755,18 @@ impl<'a> Lexer<'a> {
 
 		// let s = self.iter.consume_while_case_holds(&|c| c != "`" && c!=
 		// "\n").unwrap_or("");
-		let tail = &(0..leading_ticks.len() as u64)
-			.map(|_| "`")
-			.collect::<String>();
-		if !self.iter.is_ahead_in_paragraph(tail) {
-			return Err(ParseError {
-				content: leading_ticks,
-			});
-		}
-		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
-		if !s.ends_with(tail) {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		} else {
-			let s = s.trim_end_matches(tail);
-			if s.starts_with(' ') && s.ends_with(' ') && !is_blank(s) {
+		match self.iter.consume_until_run(leading_ticks) {
+			None => {
+				return Err(ParseError {
+					content: leading_ticks,
+				})
+			}
+			Some(s)
+				if s.starts_with(' ') && s.ends_with(' ') && !is_blank(s) =>
+			{
 				return Ok(Token::CodeSpan(s[1..s.len() - 1].to_string()));
 			}
-			return Ok(Token::CodeSpan(s.to_string()));
+			Some(s) => return Ok(Token::CodeSpan(s.to_string())),
 		}
 
 		// leading_ticks.len() == 3. Check for lang
-- 
2.43.0


From f4f7fa9fb885cd73b945d2bbb6cdc53a0801e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:33 +0000
Subject: [PATCH 090/101] fix: any indented line continues a footnote

A definition followed by a line indented by other than two or four blanks
was shown as text instead.
---
 gfm/src/lexer.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 715c326..77b5670 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -810,21 +810,7 @@ impl<'a> Lexer<'a> {
 					continue;
 				}
 				if self.iter.peek() == Some(&" ") {
-					let spaces = self
-						.iter
-						.consume_while_case_holds(&|c| c == " ")
-						.unwrap_or("");
-					match spaces.len() {
-						2 | 4 => {}
-						_ => {
-							return Err(ParseError {
-								content: self
-									.iter
-									.get_substring_from(start_index)
-									.unwrap_or(""),
-							})
-						}
-					}
+					self.iter.consume_while_case_holds(&|c| c == " ");
 					continue;
 				}
 				break;
-- 
2.43.0


From 90418d1b61adf81faf498c33c0133dac913bf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:40 +0000
Subject: [PATCH 091/101] fix: a footnote ends the paragraph before it

The paragraph after the footnote was joined to it.
---
 gfm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 29642b4..f7e3dde 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -118,7 +118,8 @@ impl Parser {
 							Token::OrderedListEntry(_) |
 							Token::UnorderedListEntry(_) |
 							Token::TaskListItem(_, _) |
-							Token::HorizontalRule | Token::Table(_, _)
+							Token::HorizontalRule | Token::Table(_, _) |
+							Token::Footnote(_, _)
 					) {
 					in_paragraph = false;
 					html.push_str("</p>\n");
-- 
2.43.0


From 1abef20e85c28a549556ed067d2e40889147bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:56 +0000
Subject: [PATCH 092/101] fix: the label of a footnote is one word

---
 gfm/src/lexer.rs | 13 +++----------
 gfm/src/lib.rs   |  1 +
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 77b5670..9201857 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -792,8 +792,9 @@ impl<'a> Lexer<'a> {
 		}
 		// Parse footnotes big and small
 		if at_line_start &&
-			title.starts_with("^") &&
-			self.iter.next_if_eq(":") == Some(&":")
+			title.strip_prefix("^").is_some_and(|label| {
+				!label.is_empty() && !label.contains(char::is_whitespace)
+			}) && self.iter.next_if_eq(":") == Some(&":")
 		{
 			let ref_id = title.strip_prefix("^").unwrap_or("");
 			let note_index = self.iter.get_index();
@@ -815,14 +816,6 @@ impl<'a> Lexer<'a> {
 				}
 				break;
 			}
-			if ref_id.contains(char::is_whitespace) {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
-			}
 			return Ok(Token::Footnote(
 				ref_id.to_string(),
 				self.iter
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f7e3dde..c8c51f6 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -198,6 +198,7 @@ impl Parser {
 							let label = match after.split_once(']') {
 								Some((label, rest))
 									if !label.is_empty() &&
+										!label.contains(char::is_whitespace) &&
 										!before.ends_with('\\') =>
 								{
 									text = rest;
-- 
2.43.0


From d1bad04c9288aa7662825ef7fa6ffb17d9c23df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 093/101] fix: code indented by blanks and a tab continues
 after blank lines

---
 gfm/src/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 9201857..7c82ce6 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -342,7 +342,9 @@ impl<'a> Lexer<'a> {
 			.take_while(|l| l.ends_with('\n') && is_blank(l))
 			.collect();
 		let after = &ahead[blanks.iter().map(|l| l.len()).sum()..];
-		if after.starts_with('\t') || after.starts_with("    ") {
+		if after.starts_with("    ") ||
+			after.trim_start_matches(' ').starts_with('\t')
+		{
 			for blank in blanks {
 				code.push_str(&blank[4.min(blank.len() - 1)..]);
 				self.iter.consume_line_ahead();
-- 
2.43.0


From c6caf7c7b0356a4a6a30a4c200827c8b5a926ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:03 +0000
Subject: [PATCH 094/101] fix: a details tag without a summary is text

---
 gfm/src/lexer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 7c82ce6..a4c7867 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -970,6 +970,16 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		match (s, self.iter.next_if_eq(">")) {
 			("details", Some(">")) => {
+				// without a summary below, the tag is text
+				let below = self.iter.peek_until_end().unwrap_or("");
+				if !below.lines().nth(1).is_some_and(|line| {
+					line.starts_with("<summary>") &&
+						line.ends_with("</summary>")
+				}) {
+					return Err(ParseError {
+						content: "<details>",
+					});
+				}
 				self.iter.next_if_eq(&"\r");
 				if !self.iter.next_if_eq(&"\n").is_some() {
 					return Err(ParseError {
-- 
2.43.0


From c5cd160109e80a67d3b87367b4ffece42d37e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:15 +0000
Subject: [PATCH 095/101] fix: blanks may surround the target of a link

---
 gfm/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index a4c7867..72fd0e1 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -837,6 +837,7 @@ impl<'a> Lexer<'a> {
 					.unwrap_or(""),
 			});
 		}
+		self.iter.consume_while_case_holds(&|c| c == " ");
 		let link = self
 			.iter
 			.consume_while_case_holds(&|c| c != ")" && c != " ")
@@ -888,7 +889,7 @@ impl<'a> Lexer<'a> {
 					return Ok(Token::Link(
 						vl,
 						Some(title.to_string()),
-						Some(hover.to_string()),
+						Some(hover.to_string()).filter(|h| !h.is_empty()),
 					))
 				}
 				Err(_) => {
-- 
2.43.0


From 57c060f9420e21b15e05401af4510278e07d19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 096/101] fix: an escaped pipe is part of its table cell

---
 gfm/src/lexer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 72fd0e1..ecf5154 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -1106,7 +1106,19 @@ impl<'a> Lexer<'a> {
 			.into_iter()
 			.map(|l| {
 				let l = l.trim_end();
-				l.strip_suffix('|').unwrap_or(l).split('|').collect()
+				// an escaped pipe is part of its cell
+				let mut escaped = false;
+				let mut cells: Vec<&str> = l
+					.split(|c| {
+						let ends_cell = c == '|' && !escaped;
+						escaped = c == '\\' && !escaped;
+						ends_cell
+					})
+					.collect();
+				if cells.len() > 1 && cells.last() == Some(&"") {
+					cells.pop();
+				}
+				cells
 			})
 			.collect();
 		let is_delimiter = |c: &&str| {
-- 
2.43.0


From 9318621c61fe7ab83fbfa1488c0b0dcbd4c9e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:15 +0000
Subject: [PATCH 097/101] fix: a colon in a relative target does not make it a
 scheme

---
 gfm/src/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index b797ad1..55840d1 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -212,7 +212,13 @@ pub(crate) fn validate_link(
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
 		return Err(SanitizationError { content: source });
 	}
-	let (scheme, path) = source.split_at(source.find(':').unwrap_or(0));
+	// a colon after anything but a scheme is part of a relative target
+	let (scheme, path) = source.split_at(
+		source
+			.find(|c| !COMMONMARK_SCHEME_ASCII.contains(&c))
+			.filter(|end| source[*end..].starts_with(':'))
+			.unwrap_or(0),
+	);
 	if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {
 		return Err(SanitizationError { content: source });
 	}
-- 
2.43.0


From 29a30941a50535e2cc659dd05c0fdb760d21ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:15 +0000
Subject: [PATCH 098/101] fix: a link or image target with an at sign stays
 relative

---
 gfm/src/lexer.rs |  5 +++--
 gfm/src/token.rs | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ecf5154..ec952ab 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -8,6 +8,7 @@ use log::{
 use crate::{
 	token::{
 		validate_link,
+		validate_target,
 		Alignment,
 	},
 	Parser,
@@ -851,7 +852,7 @@ impl<'a> Lexer<'a> {
 			});
 		}
 		if self.iter.next_if_eq(")") == Some(&")") {
-			match validate_link(link) {
+			match validate_target(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(vl, Some(title.to_string()), None))
 				}
@@ -884,7 +885,7 @@ impl<'a> Lexer<'a> {
 						.unwrap_or(""),
 				});
 			}
-			match validate_link(link) {
+			match validate_target(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
 						vl,
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 55840d1..85ff19c 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -314,6 +314,20 @@ pub(crate) fn validate_link(
 	}
 }
 
+/// Like [validate_link] for the target of a link or image, where an address
+/// without a scheme is a relative target.
+pub(crate) fn validate_target(
+	source: &str,
+) -> Result<ValidURL<'_>, SanitizationError<'_>> {
+	validate_link(source).map(|url| match url.scheme {
+		Some(Scheme::Email(_)) if url.content == source => ValidURL {
+			scheme: None,
+			..url
+		},
+		_ => url,
+	})
+}
+
 #[derive(Debug)]
 pub(crate) struct SanitizationError<'a> {
 	pub(crate) content: &'a str,
-- 
2.43.0


From f5b1ed8640683617414cf6b8f0dc1164fec52da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:15 +0000
Subject: [PATCH 099/101] fix: a details tag within a line opens no section

---
 gfm/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ec952ab..4815a71 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -1059,7 +1059,7 @@ impl<'a> Lexer<'a> {
 		let mut remaining_text =
 			self.iter.consume_until_tail_is("</details>").unwrap_or("");
 		if remaining_text.contains("<details>") {
-			let mut opens = remaining_text.matches("<details>").count();
+			let mut opens = remaining_text.matches("<details>\n").count();
 			let mut closes = remaining_text.matches("</details>").count();
 			while opens >= closes && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
@@ -1067,7 +1067,7 @@ impl<'a> Lexer<'a> {
 					.iter
 					.get_substring_from(remaining_text_index)
 					.unwrap_or("");
-				opens = remaining_text.matches("<details>").count();
+				opens = remaining_text.matches("<details>\n").count();
 				closes = remaining_text.matches("</details>").count();
 			}
 		}
-- 
2.43.0


From 81085e0469a3b3d435fe18fe53de768a447ef44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:50 +0000
Subject: [PATCH 100/101] fix: a link target may contain parentheses that
 belong together

---
 gfm/src/lexer.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 4815a71..f39e477 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -839,10 +839,12 @@ impl<'a> Lexer<'a> {
 			});
 		}
 		self.iter.consume_while_case_holds(&|c| c == " ");
-		let link = self
-			.iter
-			.consume_while_case_holds(&|c| c != ")" && c != " ")
-			.unwrap_or("");
+		let link_index = self.iter.get_index();
+		let link_end = link_index + self.target_len();
+		while self.iter.get_index() < link_end {
+			self.iter.next();
+		}
+		let link = self.iter.get_substring_from(link_index).unwrap_or("");
 		if self.iter.peek() != Some(&")") && self.iter.peek() != Some(&" ") {
 			return Err(ParseError {
 				content: self
@@ -906,6 +908,30 @@ impl<'a> Lexer<'a> {
 		Err(ParseError { content: "" })
 	}
 
+	/// The length of the link target ahead, which may contain parentheses if
+	/// they belong together.
+	fn target_len(&self) -> usize {
+		let text = self.iter.peek_until_end().unwrap_or("");
+		let mut depth = 0;
+		for (i, c) in text.char_indices() {
+			match c {
+				'(' => depth += 1,
+				')' if depth == 0 => return i,
+				')' => depth -= 1,
+				' ' if depth == 0 &&
+					text[i..]
+						.trim_start_matches(' ')
+						.starts_with(['"', '\'', ')']) =>
+				{
+					return i
+				}
+				' ' | '\n' => break,
+				_ => {}
+			}
+		}
+		text.find([')', ' ']).unwrap_or(text.len())
+	}
+
 	/// Consumes a quoted title, up to the quote that ends the link.
 	fn lex_quoted_title(&mut self) -> Option<&'a str> {
 		let text = self.iter.peek_until_end()?;
-- 
2.43.0


From ca70ee1e8e5b8be477f374cc30605c463e3679b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:23 +0000
Subject: [PATCH 101/101] fix: footnotes are numbered throughout a document

---
 gfm/src/lexer.rs | 14 +++---------
 gfm/src/lib.rs   | 56 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f39e477..60584cd 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -256,19 +256,11 @@ impl<'a> Lexer<'a> {
 		if line.chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
-		let rendered = Parser::render_in_line(
-			line_without_optional_trailing_hash_sequence
-				.trim_matches([' ', '\t']),
-		);
-		let parsed_line = rendered
-			.strip_prefix("<p>")
-			.and_then(|text| text.strip_suffix("</p>\n"))
-			.filter(|text| !text.contains("</p>"))
-			.unwrap_or(&rendered)
-			.trim()
+		let line = line_without_optional_trailing_hash_sequence
+			.trim_matches([' ', '\t'])
 			.to_string();
 
-		Ok(Token::Header(hashes.len(), parsed_line, label))
+		Ok(Token::Header(hashes.len(), line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index c8c51f6..aebd80b 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -28,12 +28,18 @@ impl Parser {
 	/// assert_eq!(html, expected_html);
 	/// ```
 	pub fn render(source: &str) -> String {
+		Self::render_part(source, &mut Vec::new())
+	}
+
+	/// Renders a part of a document, `cited` are the labels of the footnotes
+	/// referenced so far.
+	fn render_part(source: &str, cited: &mut Vec<String>) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(&source.replace("\r\n", "\n"), &[]))
+		Self::parse(&Self::lex(&source.replace("\r\n", "\n"), &[]), cited)
 	}
 
-	pub(crate) fn render_in_line(source: &str) -> String {
-		Self::parse(&Self::lex_with(Lexer::new_in_line(source), &[]))
+	fn render_in_line(source: &str, cited: &mut Vec<String>) -> String {
+		Self::parse(&Self::lex_with(Lexer::new_in_line(source), &[]), cited)
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
@@ -52,7 +58,7 @@ impl Parser {
 		tokens
 	}
 
-	fn parse(tokens: &[Token<'_>]) -> String {
+	fn parse(tokens: &[Token<'_>], cited: &mut Vec<String>) -> String {
 		debug!("Parsing {} tokens", tokens.len());
 		let mut html = String::with_capacity(tokens.len() * 100);
 		let mut quote_level = 0;
@@ -63,7 +69,6 @@ impl Parser {
 		let mut in_code = false;
 		let mut pending_blank = String::new();
 		let mut references = Vec::new();
-		let mut cited: Vec<String> = Vec::new();
 		let mut token_iter = tokens.iter().peekable();
 
 		// multi-liners
@@ -247,6 +252,8 @@ impl Parser {
 					}
 				}
 				Token::Header(l, t, lbl) => {
+					let rendered = Self::render_in_line(t, cited);
+					let t = Self::strip_paragraph(&rendered).trim();
 					match lbl {
 						Some(lbl_text) => html.push_str(
 							format!(
@@ -278,7 +285,7 @@ impl Parser {
 					html.push_str(
 						format!(
 							"<li>\n{}</li>\n",
-							Self::render_list_item(t)
+							Self::render_list_item(t, cited)
 						)
 						.as_str(),
 					)
@@ -299,15 +306,18 @@ impl Parser {
 								if text.starts_with("\t\t") =>
 							{
 								html.push_str(
-									&Self::render(
+									&Self::render_part(
 										text[1..].trim_start_matches(" "),
+										cited,
 									)
 									.replace("<pre><code>", "<pre><code>  "),
 								);
 							}
 							Token::Plaintext(text) => {
-								let text =
-									&Self::render(text.trim_start_matches(" "));
+								let text = &Self::render_part(
+									text.trim_start_matches(" "),
+									cited,
+								);
 								html.push_str(text);
 							}
 							_ => {}
@@ -384,7 +394,7 @@ impl Parser {
 						html.push_str("</p>\n");
 						in_paragraph = false;
 					}
-					let inner_html = Self::parse(inner_tokens);
+					let inner_html = Self::parse(inner_tokens, cited);
 					html.push_str(
 						format!(
 							"<details>\n<summary>{sum}</summary>\n{in_html}\n\
@@ -437,9 +447,10 @@ impl Parser {
 						_ => {}
 					}
 					if !t.is_empty() {
-						html.push_str(
-							&Self::render(t.strip_prefix(" ").unwrap_or(t)),
-						);
+						html.push_str(&Self::render_part(
+							t.strip_prefix(" ").unwrap_or(t),
+							cited,
+						));
 					}
 				}
 				Token::TaskListItem(c, t) => {
@@ -454,7 +465,7 @@ impl Parser {
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\" \
 								 checked=\"\">{}</li>",
-								Self::render_list_item(t)
+								Self::render_list_item(t, cited)
 							)
 							.as_str(),
 						),
@@ -463,7 +474,7 @@ impl Parser {
 								"<li class=\"task-list-item\"><input \
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\">{}</li>",
-								Self::render_list_item(t)
+								Self::render_list_item(t, cited)
 							)
 							.as_str(),
 						),
@@ -483,7 +494,10 @@ impl Parser {
 								"\t\t<th style=\"text-align: \
 								 {align}\">{heading}</th>",
 								heading =
-									Self::render_cell(&Self::lex_cell(&h.1)),
+									Self::render_cell(
+										&Self::lex_cell(&h.1),
+										cited
+									),
 								align = h.0
 							)
 							.as_str(),
@@ -493,7 +507,7 @@ impl Parser {
 					for row in rows.iter() {
 						html.push_str("\n\t<tr>");
 						for elem in row.iter() {
-							let row_string = Self::render_cell(&elem.1);
+							let row_string = Self::render_cell(&elem.1, cited);
 							html.push_str(
 								format!(
 									"\n\t\t<td style=\"text-align: \
@@ -610,7 +624,7 @@ impl Parser {
 	}
 
 	/// Renders the inline content of a table cell.
-	fn render_cell(tokens: &[Token]) -> String {
+	fn render_cell(tokens: &[Token], cited: &mut Vec<String>) -> String {
 		let mut row_string = String::new();
 		for token in tokens.iter() {
 			match token {
@@ -646,6 +660,7 @@ impl Parser {
 				),
 				_ => row_string.push_str(Self::strip_paragraph(&Self::parse(
 					std::slice::from_ref(token),
+					cited,
 				))),
 			}
 		}
@@ -654,8 +669,9 @@ impl Parser {
 
 	/// Renders the text of a list item, usually a single paragraph whose tags
 	/// are left out.
-	fn render_list_item(source: &str) -> String {
-		let rendered = Self::render(source.trim_matches([' ', '\t']));
+	fn render_list_item(source: &str, cited: &mut Vec<String>) -> String {
+		let rendered =
+			Self::render_part(source.trim_matches([' ', '\t']), cited);
 		Self::strip_paragraph(&rendered).to_string()
 	}
 
-- 
2.43.0

