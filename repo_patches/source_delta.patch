From 13583d431ce75357fd5c2ec146b10c41628fd573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 01/22] fix: treat U+10FFFF, not U+10FFF, as the last character
 in SymbolOp

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..636cb07 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -563,7 +563,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From 06f458b21f2fb68c281063e626a70c59cb3c8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 02/22] fix: build transition tables of automata without
 symbols

---
 laps_regex/src/table.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..deeea56 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,7 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
-    // get number of states
-    let num_states = trans_table[0].len();
+    let (equivs, trans_table, init_id, tags, num_states) = TempTable::new(dfa).into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -139,6 +137,7 @@ struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
   tags: HashMap<usize, T>,
   init_id: usize,
+  num_states: usize,
 }
 
 impl<S, T> TempTable<S, T> {
@@ -176,13 +175,14 @@ impl<S, T> TempTable<S, T> {
       table,
       tags,
       init_id: ids[&fa.init_id()],
+      num_states,
     }
   }
 
   /// Optimizes the current table.
   ///
   /// Returns equivalence classes, state-transition table,
-  /// initial state ID and tags.
+  /// initial state ID, tags and number of states.
   fn into_optimized(self) -> OptimizedTable<S, T>
   where
     S: Ord + SymbolOp,
@@ -218,12 +218,24 @@ impl<S, T> TempTable<S, T> {
         }
       }
     }
-    (equivs, trans_table, self.init_id, self.tags)
+    (
+      equivs,
+      trans_table,
+      self.init_id,
+      self.tags,
+      self.num_states,
+    )
   }
 }
 
 /// Intermediate result of an optimized state-transition table.
 ///
 /// Contains equivalence classes, optimized state-transition table,
-/// initial state ID and tags.
-type OptimizedTable<S, T> = (Vec<Vec<(S, S)>>, Vec<Vec<usize>>, usize, HashMap<usize, T>);
+/// initial state ID, tags and number of states.
+type OptimizedTable<S, T> = (
+  Vec<Vec<(S, S)>>,
+  Vec<Vec<usize>>,
+  usize,
+  HashMap<usize, T>,
+  usize,
+);
-- 
2.43.0


From 32cd74748362948cfa1c67f9ad38b4231802d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 03/22] fix: keep loops out of the initial state of Kleene
 closures

---
 laps_regex/src/nfa.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..3b66d19 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -54,9 +54,15 @@ where
         // create a edge to the initial state
         let init = nfa.fa.init_id();
         nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
-        nfa
+        // enter and leave the loop through new states, so that the
+        // new initial state has no incoming edges
+        let mut kleene = Self::new_nfa_with_symbol(None);
+        let fs = kleene.fa.final_id().unwrap();
+        nfa.fa.state_mut(id).unwrap().add(None, fs);
+        kleene.fa.init_mut().add(None, init);
+        kleene.fa.union(nfa.fa);
+        kleene.tags.extend(nfa.tags);
+        kleene
       }
     }
   }
-- 
2.43.0


From b57e46c21754d659c1381070c06191b6210b085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 04/22] fix: keep every tag of identical alternatives in
 regular expressions

---
 laps_regex/src/mir.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 636cb07..4fda388 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,26 +351,20 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
     // optimize all sub-expressions, flatten nested alternations
-    // and remove duplicate expressions
+    // and remove duplicate expressions with the same tag
     let mut new_a = Vec::new();
     let mut set = HashSet::new();
-    for (e, _) in a {
-      // get the tag of the current expresson
-      let t = tagged_exps.get(&e).cloned();
+    for (e, t) in a {
       // optimize, and handle by kind
       match e.opt_without_rebuild()? {
         Self::Alter(a) => new_a.extend(
           a.into_iter()
-            .filter_map(|(e, inner_t)| set.insert(e.clone()).then(|| (e, t.clone().or(inner_t)))),
+            .map(|(e, inner_t)| (e, t.clone().or(inner_t)))
+            .filter(|et| set.insert(et.clone())),
         ),
         e => {
-          if set.insert(e.clone()) {
+          if set.insert((e.clone(), t.clone())) {
             new_a.push((e, t));
           }
         }
-- 
2.43.0


From 9b2b9f2c4cf35fef41d8d1c3a6fa65f6733c0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/22] fix: do not overflow at the ends of the byte range in
 SymbolOp

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 4fda388..aade01d 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -565,10 +565,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From caf9cdb6ce4260bc5f2be29dd515461f8c1f2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/22] fix: support ASCII-only Unicode classes in byte
 matchers

---
 laps_regex/src/mir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index aade01d..da23da7 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -496,7 +496,11 @@ impl<T> MirBuilder for Mir<u8, T> {
       Class::Bytes(b) => Ok(Self::Ranges(
         b.ranges().iter().map(|r| (r.start(), r.end())).collect(),
       )),
-      Class::Unicode(_) => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      // the parser also turns alternations of ASCII characters into Unicode classes
+      Class::Unicode(u) => match u.to_byte_class() {
+        Some(b) => Self::new_from_class(Class::Bytes(b)),
+        None => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      },
     }
   }
 }
-- 
2.43.0


From f5ec82b1df36669b9ed5bbb2385694729d5391a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 07/22] fix: complete characters split across reads and keep
 reporting invalid UTF-8

---
 src/reader.rs | 54 +++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..5bad3e4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,41 +60,35 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    // read bytes to buffer, until it starts with a complete UTF-8 character
+    let end = loop {
+      let count = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      self.byte_buf_offset += count;
+      // handle EOF
+      if self.byte_buf_offset == 0 {
+        return Ok((None, loc));
+      }
+      match from_utf8(&self.byte_buf[..self.byte_buf_offset]) {
+        Ok(s) => break s.len(),
+        Err(e) if e.valid_up_to() != 0 => break e.valid_up_to(),
+        // the first character is incomplete, read more bytes
+        Err(e) if e.error_len().is_none() && count != 0 => {}
+        // keep the invalid bytes in the buffer, so the error will occur again
+        Err(_) => return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into(),
       }
     };
     // get the character and fill the char buffer
+    // safe due to the above check
+    let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
     let mut chars = s.chars();
-    let c = if let Some(c) = chars.next() {
-      self.char_buf.extend(chars.rev());
-      c
-    } else {
-      return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
-    };
+    let c = chars.next().unwrap();
+    self.char_buf.extend(chars.rev());
     // update byte buffer and its offset
-    if let Some(end) = end {
-      self.byte_buf.copy_within(end..count, 0);
-      self.byte_buf_offset = count - end;
-    } else {
-      self.byte_buf_offset = 0;
-    }
+    self.byte_buf.copy_within(end..self.byte_buf_offset, 0);
+    self.byte_buf_offset -= end;
     // update the span
     self.span.update(&c);
     Ok((Some(c), loc))
-- 
2.43.0


From 77c53ffe8a7e29fbbb18e7507604c8e5360b51b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 08/22] fix: reject Unicode escapes without digits in literals

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..cc1da3a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -324,14 +324,14 @@ where
           return ParseResult::Error;
         }
         // get hex value
-        let mut hex = 0u32;
+        let mut hex: Option<u32> = None;
         for c in iter {
           match c.to_digit(16) {
-            Some(h) => match hex.checked_mul(16) {
-              Some(h16) => hex = h16 + h,
+            Some(h) => match hex.unwrap_or(0).checked_mul(16) {
+              Some(h16) => hex = Some(h16 + h),
               None => break,
             },
-            None if c == '}' => match char::from_u32(hex) {
+            None if c == '}' => match hex.and_then(char::from_u32) {
               Some(c) => return ParseResult::Char(c),
               None => break,
             },
-- 
2.43.0


From cd4fcad59e2b031583a2e2ad196fbb975eaeebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 09/22] fix: parse the minimum value of signed integers in
 signed_int_literal

---
 src/lexer.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index cc1da3a..a4a5190 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -99,6 +99,14 @@ pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
 {
+  let (digits, radix) = int_literal_digits(s)?;
+  // convert to integer
+  T::from_str_radix(digits, radix).ok()
+}
+
+/// Returns the digits and the radix of the given integer literal,
+/// or [`None`] if it is not a valid integer literal.
+fn int_literal_digits(s: &str) -> Option<(&str, u32)> {
   // check if is a valid integer literal
   let mut chars = s.chars();
   let (radix, starts_from) = match (chars.next(), chars.next()) {
@@ -118,8 +126,7 @@ where
   if !chars.all(|c| c.is_digit(radix)) {
     return None;
   }
-  // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  Some((&s[starts_from..], radix))
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -148,10 +155,17 @@ where
   T: IntLiteral,
 {
   let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
-  } else {
-    int_literal(s)
+  match first {
+    '+' => int_literal(&s[1..]),
+    '-' => {
+      let (digits, radix) = int_literal_digits(&s[1..])?;
+      // the minimum value of signed types has no positive counterpart
+      T::from_str_radix(digits, radix)
+        .map(T::wrapping_neg)
+        .or_else(|_| T::from_str_radix(&format!("-{digits}"), radix))
+        .ok()
+    }
+    _ => int_literal(s),
   }
 }
 
-- 
2.43.0


From 413faa3903d1626276fdde91afc53c87728d63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 10/22] fix: put the prefix token back when checking what
 follows it fails

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From 99a60b69919316cca4f101060a42f1d6450cae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 11/22] fix: put peeked tokens back when the default peek2 and
 peek_n fail

---
 src/token.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..e0187e3 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,7 +157,13 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
+    let token2 = match self.next_token() {
+      Ok(token) => token,
+      Err(err) => {
+        self.unread(token1);
+        return Err(err);
+      }
+    };
     self.unread(token2.clone());
     self.unread(token1.clone());
     Ok((token1, token2))
@@ -170,11 +176,13 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| {
+      v.push(self.next_token()?);
+      Ok(())
+    });
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From b453086c302ee05ff54471734d347eb07536a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 12/22] fix: do not read tokens behind a mismatch in
 Lookahead::maybe

---
 src/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index e0187e3..acd52df 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -285,7 +285,10 @@ where
     if self.last_result {
       self.last_result = TA::maybe(self.tokens)?;
     }
-    self.buf.push(self.tokens.next_token()?);
+    // do not read any more tokens after a mismatch
+    if self.last_result {
+      self.buf.push(self.tokens.next_token()?);
+    }
     Ok(self)
   }
 
-- 
2.43.0


From 7533bc9cd8cad15e2e73f3eb1025b8bb1a10192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 13/22] fix: mark all columns from the first character of
 single-line spans

---
 src/span.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..bdf77ab 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -454,10 +454,11 @@ impl Span {
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let (line, leading, end) =
+      get_line_str!(lines.nth(line_num - 1), self.start.col - 1, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    // mark at least one column, even if the characters have no width
+    let len = std::cmp::max(end - leading, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
-- 
2.43.0


From f2703835d7f0cc3b54767e033626c5be69edeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 14/22] fix: do not look for source lines of spans without a
 valid line range

---
 src/span.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index bdf77ab..fa1d25e 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -428,7 +428,9 @@ impl Span {
   fn print_file_info(&self, color: Color) {
     let file_type = &self.status.file_type;
     eprintln!("  {} {file_type}:{}", "at".blue(), self.start);
-    if self.start.col > 0 && self.end.col > 0 {
+    // the span may be overridden or reversed, so its lines may not exist
+    let has_line = self.start.line > 0 && self.start.line <= self.end.line;
+    if has_line && self.start.col > 0 && self.end.col > 0 {
       if let FileType::File(path) = file_type {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
@@ -478,7 +480,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = (self.end.line as f32 + 1.0).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-- 
2.43.0


From c57481ecc1dfdde1cd64dbfb2c756d954a80495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 15/22] fix: print markers in lines that are longer than a
 formatting width

---
 src/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index fa1d25e..607afdb 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -465,8 +465,8 @@ impl Span {
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -490,7 +490,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(start)).color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -521,7 +521,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(end)).color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From d53f6878488756e3d4118dc5792467b5a2810827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 16/22] fix: count errors and warnings without the logger
 feature

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 607afdb..a4c7535 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From 01eab753f452f50a4b385035eccb1b325ff3e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 17/22] fix: size lexer tables for the value of missing
 transitions

---
 laps_macros/src/tokenize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..0401a03 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -407,10 +407,11 @@ impl RegexImpls {
 
   /// Generates table type.
   fn table_ty(&self) -> TokenStream2 {
-    if self.num_states <= 1 {
+    // the table contains all state IDs and `num_states` (no such transition)
+    if self.num_states == 0 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From bd5e41f197e84ae05dd29d4031df813efbaa65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 18/22] fix: do not use doc comments of token kinds as format
 strings

---
 laps_macros/src/token_kind.rs | 9 ++++-----
 laps_macros/src/tokenize.rs   | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..33c271d 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -83,12 +83,11 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
     );
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
-        let prompt = prompt + " `{}`";
-        quote!(Self::#ident(v) => std::write!(f, #prompt, v),)
+        quote!(Self::#ident(v) => std::write!(f, "{} `{}`", #prompt, v),)
       }
-      Fields::Named(_) => quote!(Self::#ident { .. } => std::write!(f, #prompt),),
-      Fields::Unnamed(_) => quote!(Self::#ident(..) => std::write!(f, #prompt),),
-      Fields::Unit => quote!(Self::#ident => std::write!(f, #prompt),),
+      Fields::Named(_) => quote!(Self::#ident { .. } => f.write_str(#prompt),),
+      Fields::Unnamed(_) => quote!(Self::#ident(..) => f.write_str(#prompt),),
+      Fields::Unit => quote!(Self::#ident => f.write_str(#prompt),),
     });
   }
   quote! {
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 0401a03..601b566 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -474,10 +474,10 @@ impl RegexImpls {
           let err = &v.err;
           let field = match parser {
             Some(e) => quote! {
-              (#e)(buf).ok_or_else(|| return_error!(span, std::concat!("invalid ", #err)))?
+              (#e)(buf).ok_or_else(|| return_error!(span, "invalid {}", #err))?
             },
             None => quote! {
-              buf.parse().map_err(|_| return_error!(span, std::concat!("invalid ", #err)))?
+              buf.parse().map_err(|_| return_error!(span, "invalid {}", #err))?
             },
           };
           let ident = &v.ident;
-- 
2.43.0


From 874908a5803a40510880256cb62049c21b9f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 19/22] fix: support raw identifiers as fields in
 derive(Spanned)

---
 laps_macros/src/spanned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..9e7cdc9 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -3,8 +3,8 @@ use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
 use quote::quote;
 use syn::{
-  punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
-  Field, Fields, Meta, Result, Token, Variant,
+  ext::IdentExt, punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct,
+  DeriveInput, Field, Fields, Meta, Result, Token, Variant,
 };
 
 /// Entry function of `#[derive(Spanned)]`.
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = Ident::new(&format!("_{}", id.unraw()), span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From ec98216cc84ebb7f44e1dd5732c3f0a106bca1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 20/22] fix: escape symbols in Graphviz dumps of automata, and
 leave out an empty list of final states

---
 laps_regex/src/fa.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/laps_regex/src/fa.rs b/laps_regex/src/fa.rs
index abb6868..72c0edb 100644
--- a/laps_regex/src/fa.rs
+++ b/laps_regex/src/fa.rs
@@ -29,6 +29,11 @@ fn get_and_update_state_id() -> usize {
   cur
 }
 
+/// Returns the Graphviz label of the given symbol, without quotes.
+fn label<S: fmt::Debug>(sym: &S) -> String {
+  format!("{sym:?}").replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 /// Trait for state of finite automaton.
 pub trait State<S> {
   /// Creates a new empty state.
@@ -88,7 +93,7 @@ impl<S> State<S> for DenseState<S> {
     W: io::Write,
   {
     for (s, to) in &self.outs {
-      writeln!(writer, "  {id} -> {to} [label = \"{s:?}\"]")?;
+      writeln!(writer, "  {id} -> {to} [label = \"{}\"]", label(s))?;
     }
     Ok(())
   }
@@ -131,7 +136,7 @@ where
   {
     for (s, to_ids) in &self.outs {
       for to in to_ids {
-        writeln!(writer, "  {id} -> {to} [label = \"{s:?}\"]")?;
+        writeln!(writer, "  {id} -> {to} [label = \"{}\"]", label(s))?;
       }
     }
     Ok(())
@@ -269,12 +274,14 @@ impl<Sym, State: self::State<Sym>> FiniteAutomaton<Sym, State> {
   {
     writeln!(writer, "digraph finite_automaton {{")?;
     writeln!(writer, "  rankdir = LR")?;
-    writeln!(writer, "  node [shape = doublecircle];")?;
-    write!(writer, " ")?;
-    for id in &self.finals {
-      write!(writer, " {id}")?;
+    if !self.finals.is_empty() {
+      writeln!(writer, "  node [shape = doublecircle];")?;
+      write!(writer, " ")?;
+      for id in &self.finals {
+        write!(writer, " {id}")?;
+      }
+      writeln!(writer, ";")?;
     }
-    writeln!(writer, ";")?;
     writeln!(writer, "  node [shape = circle];")?;
     for (id, state) in &self.states {
       state.dump(writer, *id)?;
-- 
2.43.0


From 65299654b989a5e8865be0c8ae0434422d5b52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 21/22] fix: accept other attributes after `#[regex]`,
 `#[skip]` and `#[eof]` in derive(Tokenize)

---
 laps_macros/src/tokenize.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 601b566..20bf110 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,23 +135,19 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
-      if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
-      } else {
+      let new_attr = match &a.meta {
+        Meta::List(l) if l.path.is_ident("regex") => VariantAttr::new_regex(&l.tokens)?,
+        Meta::List(l) if l.path.is_ident("skip") => VariantAttr::new_skip(&l.tokens)?,
+        Meta::Path(p) if p.is_ident("eof") => VariantAttr::Eof,
+        _ => continue,
+      };
+      if attr.is_some() {
         return_error!(
           a.span(),
           "attribute `regex`/`skip`/`eof` is bound more than once"
         )
       }
+      attr = Some(new_attr);
     }
     // check attribute
     match &attr {
-- 
2.43.0


From f75f862eedc63fdb94265bbe62eee0f0c73fe1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 22/22] fix: derive(Tokenize) panicked for patterns that match
 only the empty text

---
 laps_macros/src/tokenize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 20bf110..5a90d1c 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -444,8 +444,11 @@ impl RegexImpls {
       }
     };
     // generate boundary check
-    let l = bound(&self.sym_map.first().unwrap().0);
-    let r = bound(&self.sym_map.last().unwrap().1);
+    let (l, r) = match (self.sym_map.first(), self.sym_map.last()) {
+      (Some((l, _, _)), Some((_, r, _))) => (bound(l), bound(r)),
+      // no symbols, only the empty text can be matched
+      _ => return quote!(let _ = c; None),
+    };
     // generate equivalent IDs
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
-- 
2.43.0

