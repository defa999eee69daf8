From f757f9d5bcc0db9fd321906229b5746160758f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 01/39] verif: read-only accessors behind cfg(hastur_verif)

---
 src/eval/mod.rs        | 21 +++++++++++++++++++++
 src/lib.rs             | 21 +++++++++++++++++++++
 src/source_location.rs |  8 ++++++++
 3 files changed, 50 insertions(+)

diff --git a/src/eval/mod.rs b/src/eval/mod.rs
index cab38e0..3ddcd32 100644
--- a/src/eval/mod.rs
+++ b/src/eval/mod.rs
@@ -103,3 +103,24 @@ impl<'d> Variable<'d> {
         &self.value.unexpanded_value
     }
 }
+
+#[cfg(hastur_verif)]
+impl VariableParameters {
+    /// Verification hook: public constructor
+    pub fn verif_new(unexpanded_value: AstNode, flavor: Flavor, origin: Origin) -> Self {
+        Self::new(unexpanded_value, flavor, origin)
+    }
+}
+
+#[cfg(hastur_verif)]
+impl<'d> Variable<'d> {
+    /// Verification hook: the flavor of this variable
+    pub fn verif_flavor(&self) -> Flavor {
+        self.value.flavor
+    }
+
+    /// Verification hook: the origin of this variable
+    pub fn verif_origin(&self) -> Origin {
+        self.value.origin
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..c1af80b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,6 +143,14 @@ pub struct Command {
     unexpanded_command: AstNode,
 }
 
+#[cfg(hastur_verif)]
+impl Command {
+    /// Verification hook: the unexpanded text of this command
+    pub fn verif_ast(&self) -> &AstNode {
+        &self.unexpanded_command
+    }
+}
+
 /// Represents what type of rule this is (standard, double colon, static pattern, etc.)
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum RuleType {
@@ -204,6 +212,19 @@ impl Rule {
     }
 }
 
+#[cfg(hastur_verif)]
+impl Rule {
+    /// Verification hook: what kind of rule this is
+    pub fn verif_rule_type(&self) -> RuleType {
+        self.rule_type
+    }
+
+    /// Verification hook: the interned names of the dependencies
+    pub fn verif_dep_names(&self) -> Vec<FileName> {
+        self.dep_names.iter().map(|x| *x).collect()
+    }
+}
+
 /// Type representing an opaque variable name reference.
 /// It is a logical bug to share these between database instances.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Ord, PartialOrd)]
diff --git a/src/source_location.rs b/src/source_location.rs
index 8f5dba2..2ce7572 100644
--- a/src/source_location.rs
+++ b/src/source_location.rs
@@ -294,6 +294,14 @@ impl Located<String> {
     }
 }
 
+#[cfg(hastur_verif)]
+impl Located<String> {
+    /// Verification hook: a located string at an arbitrary location
+    pub fn verif_new(location: Location, contents: String) -> LocatedString {
+        LocatedString::new(location.into(), contents)
+    }
+}
+
 /// A string span
 pub type LocatedStr<'a> = Located<&'a str>;
 /// A string span that is owned
-- 
2.43.0


From 77570121ca4fb216cca03fdef096189da5c919ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 02/39] fix: a line ends at its own line break (LF or CRLF) or
 comment, not at a later line's comment

---
 src/parsers/mod.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..00773a7 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -308,32 +308,26 @@ pub enum LineEndReason {
 /// Get a line, stopping on a UNIX line break, Windows line break, or the beginning of a comment
 pub fn makefile_grab_line<T>(input: T) -> IResult<T, (T, LineEndReason), ParseErrorKind>
 where
-    T: Clone
-        + Copy
-        + nom::AtEof
-        + nom::Slice<std::ops::Range<usize>>
-        + nom::Slice<std::ops::RangeFrom<usize>>
-        + nom::Slice<std::ops::RangeTo<usize>>
-        + nom::InputTake
-        + nom::InputIter<Item = char>
-        + nom::Compare<&'static str>
-        + nom::InputLength
-        + nom::FindSubstring<&'static str>,
+    T: Clone + Copy + nom::InputTake + nom::InputIter<Item = char> + nom::InputLength,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    // Whichever of a comment or a line break comes first ends the line
+    let mut prev_char = '\0';
+    for (idx, c) in input.iter_indices() {
+        if c == '#' {
+            let (rest, line) = input.take_split(idx);
+            return Ok((rest, (line, LineEndReason::Comment)));
+        }
+        if c == '\n' {
+            // A carriage return directly before the line feed is part of the line break
+            let line_len = if prev_char == '\r' { idx - 1 } else { idx };
+            let (rest, _) = input.take_split(idx + 1);
+            return Ok((rest, (input.take(line_len), LineEndReason::LineBreak)));
+        }
+        prev_char = c;
+    }
+
+    let (rest, line) = input.take_split(input.input_len());
+    Ok((rest, (line, LineEndReason::EOF)))
 }
 
 named!(
-- 
2.43.0


From a2dc922b82750d924341acb383ab70e13abc835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 03/39] fix: spans index text in bytes, so non-ASCII makefiles
 keep their characters

---
 src/evaluated/block_span.rs        | 20 +++++---
 src/evaluated/content_reference.rs | 25 ++++++++--
 src/evaluated/nom/mod.rs           | 74 ++++++++++--------------------
 src/parsers/mod.rs                 |  9 ++--
 4 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..39f79ee 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,9 +156,18 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
-            )),
+            Some(x) => {
+                let mut chars = x.chars();
+                // The offset is in bytes, not characters
+                let mut to_skip = parent.offset;
+                while to_skip > 0 {
+                    match chars.next() {
+                        Some(c) => to_skip -= c.len_utf8(),
+                        None => break,
+                    }
+                }
+                Box::new(BlockSpanCharIteratorInternal::ContentReference(chars))
+            }
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
@@ -183,7 +191,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,8 +199,7 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
-                BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
+                    BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..30aee08 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,18 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        let mut internal = self.node.chars();
+        let mut to_skip = self.offset;
+        while to_skip > 0 {
+            match internal.next() {
+                Some(c) => to_skip -= c.len_utf8(),
+                None => break,
+            }
+        }
+        ContentReferenceIter {
+            internal,
+            remaining_bytes: self.length,
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +148,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    internal: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.internal.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..ee7ceca 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,13 +32,23 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|(_, c)| predicate(*c))
+            .map(|(idx, _)| idx)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
+        // `count` is in characters, but the index we return is in bytes
+        let mut seen = 0;
+        for (idx, _) in self.iter_indices() {
+            if seen == count {
+                return Some(idx);
+            }
+            seen += 1;
+        }
+        if seen == count {
+            Some(self.length)
         } else {
             None
         }
@@ -194,56 +204,18 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
+        let mut iter = self.iter_indices();
+        loop {
+            let candidate = iter.clone().map(|(_, c)| c);
+            if candidate.take(substr.chars().count()).eq(substr.chars()) {
+                return Some(match iter.next() {
+                    Some((idx, _)) => idx,
+                    // Only the empty string can match at the end of the span
+                    None => self.length,
+                });
             }
-            self_idx = content.0 + char_size;
+            iter.next()?;
         }
-
-        if buffer == substr.as_bytes() {
-            return Some(0);
-        }
-
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
-                }
-            }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
-            }
-        }
-
-        None
     }
 }
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 00773a7..613ebc0 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -383,6 +383,7 @@ where
     let mut last_nonslash_idx = -1;
     let mut next_push_start = 0;
     let mut stopchar_index = i.len() + 1;
+    let mut stopchar_len = 1;
     let mut stopchar_seen = false;
     for (idx, ch) in i.iter_indices() {
         if stop(ch) {
@@ -390,7 +391,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -413,11 +414,13 @@ where
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
                 stopchar_index = idx;
+                stopchar_len = ch.len_utf8();
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            // The index of the last byte of the character
+            last_nonslash_idx = (idx + ch.len_utf8()) as isize - 1;
         }
     }
 
@@ -443,7 +446,7 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        (tr, Some((stop_character, i.slice(stopchar_index + stopchar_len..))))
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-- 
2.43.0


From 94da412c952d11376eca54f0299ee6a74568a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 04/39] fix: continuation trimming and drive-letter detection
 look at whole characters

Continuations consisting only of whitespace kept one blank, a backslash
before the trimmed blanks was lost, and the two characters examined for a
drive letter were swapped; all of them also split multi-byte characters.
---
 src/parsers/mod.rs         | 20 ++++++----------
 src/parsers/targets/mod.rs | 49 +++++++++++++-------------------------
 2 files changed, 24 insertions(+), 45 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 613ebc0..2f98072 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -507,21 +507,15 @@ pub(crate) fn makefile_line(
                     s.slice(..s.len() - 1)
                 }
                 ParserCompliance::GNU => {
-                    if s.len() < 2 {
-                        // Either the empty string or just "\\" should go to the empty string
-                        s.slice(0..0)
-                    } else {
-                        // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
-                        for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
-                                continue;
-                            }
-                            last_non_whitespace = i;
+                    // In GNU mode we strip off the backslash and all the whitespace before it
+                    let mut end = 0;
+                    for (i, c) in s.slice(..s.len() - 1).char_indices() {
+                        if c != ' ' && c != '\t' {
+                            end = i + c.len_utf8();
                         }
-
-                        s.slice(..last_non_whitespace + 1)
                     }
+
+                    s.slice(..end)
                 }
             }
         } else {
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..122a4bb 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -580,38 +580,23 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         post_colon: post,
                     };
                 }
-                // Checking condition (1) and (2) requires slicing
-                if pre.len() == 0 {
-                    // Condition 2 fails automatically since there was no prior content
+                // Conditions (1) and (2) are about the last two characters before the colon
+                let (before_drive, drive) = {
+                    let (mut ch1, mut ch2) = (None, None);
+                    for ch in pre.span().iter_elements() {
+                        ch1 = ch2;
+                        ch2 = Some(ch);
+                    }
+                    (ch1, ch2)
+                };
+                let drive_ok = drive.map_or(false, |ch| ch.is_alphabetic());
+                let before_ok = before_drive.map_or(true, |ch| ch.is_whitespace() || ch == '(');
+                if !drive_ok || !before_ok {
+                    // Condition 1 or 2 failed, not a drive spec
                     return DrivespecSearchResult::FoundColon {
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
-                    // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
-                    if !ch.is_alphabetic() {
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
-                } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
-                    // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
-                        // Condition 1 or 2 failed, not a drive spec
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
                 }
 
                 // This colon passed all checks and is thus a drivespecc. Push
-- 
2.43.0


From 8183fc39ce0d005f1a055802d39c62ebea8c9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 05/39] fix: segments of a slice that starts on a segment
 boundary

---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 39f79ee..9290d92 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -291,7 +291,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 30aee08..9a13a79 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -203,7 +203,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From 878a122d7169219535d18530203f0f2ad3bb368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:54 +0000
Subject: [PATCH 06/39] fix: offsets between spans that cross content
 boundaries or exhaust a truncated span

---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 15 +++------------
 2 files changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 9290d92..ab96342 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index ee7ceca..a0d4cdb 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -105,10 +105,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -123,13 +120,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
@@ -237,7 +228,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From df365a643507b570ada82e558167932ea15a315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:55 +0000
Subject: [PATCH 07/39] fix: parse ${name} references

---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From a712820640e0a5194997f57406f992beaff523d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 08/39] fix: keep parsing after a function call

---
 src/parsers/ast/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..e406270 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,8 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        // The function call consumed the whole name, so what's left is what follows the reference
+        Ok((_, node)) => Ok((i, node)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From 6668b6b7c63c081b67e7ec0ce729abc0949dec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 09/39] fix: conditionals only affect the lines between them
 and their endif

Lines after the endif of a false branch stayed ignored, recipe lines in a
false branch were kept, and conditions nested in a false branch were
evaluated.
---
 src/parsers/conditional/mod.rs | 16 ++++++++++++++++
 src/parsers/mod.rs             |  8 +++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..fa0602e 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,21 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfDef(_)
+            | Conditional::IfNDef(_)
+            | Conditional::IfEq(_, _)
+            | Conditional::IfNEq(_, _)
+                if self.ignoring =>
+            {
+                // We're inside a branch that isn't taken, so track the nesting
+                // but don't evaluate anything
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
@@ -94,6 +109,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 2f98072..e5be233 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -163,9 +163,11 @@ impl ParserState {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
             run_parser!(recipe_line(i, engine.command_char), |line| {
-                // Push the line. This is safe since we only run this parser if
-                // we're currently processing a rule
-                self.push_command_line(line);
+                // Push the line, unless a conditional excludes it. This is safe
+                // since we only run this parser if we're currently processing a rule
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From d66a4a003d3f19f3a4acef14142af55f47d9216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 10/39] fix: record the rule that is still open at the end of
 the input

---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1af80b..e008c22 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -609,6 +609,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input closes whatever rule is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e5be233..d883c4f 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -289,7 +289,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From 88cde4bc20d7c6952d027d0a72676b0c07e5e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 11/39] fix: report parse failures to the caller instead of
 panicking

---
 src/lib.rs                 | 11 ++++++++---
 src/parsers/error_utils.rs | 22 +++++++++++++++++++++-
 src/parsers/mod.rs         |  1 +
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e008c22..d4b4c92 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -601,9 +601,14 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
-                Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(NErr::Failure(e)) | Err(NErr::Error(e)) => {
+                    return Err(MakefileError::ParseError(parsers::parse_error_kind(e)))
+                }
+                Err(NErr::Incomplete(_)) => {
+                    return Err(MakefileError::ParseError(ParseErrorKind::InternalFailure(
+                        "incomplete line",
+                    )))
+                }
             };
 
             i = new_i;
diff --git a/src/parsers/error_utils.rs b/src/parsers/error_utils.rs
index 27861e7..89f07c8 100644
--- a/src/parsers/error_utils.rs
+++ b/src/parsers/error_utils.rs
@@ -1,5 +1,6 @@
 use crate::evaluated::BlockSpan;
-use nom::{Context, Err};
+use crate::ParseErrorKind;
+use nom::{Context, Err, ErrorKind};
 
 /// Lifts an error that occurred while processing a collapsed line to an error
 /// on a span that line contains
@@ -29,6 +30,25 @@ pub(crate) fn lift_collapsed_span_error<'a, 'b, E>(
     }
 }
 
+/// Extract the kind of error to report from a parser error context. The
+/// outermost of our own errors is the most descriptive one, if there is one.
+pub(crate) fn parse_error_kind<I>(context: Context<I, ParseErrorKind>) -> ParseErrorKind {
+    let errors = match context {
+        Context::Code(_, e) => vec![e],
+        Context::List(errs) => errs.into_iter().map(|(_, e)| e).collect(),
+    };
+    errors
+        .into_iter()
+        .rev()
+        .filter_map(|e| match e {
+            ErrorKind::Custom(ParseErrorKind::NomError(_)) => None,
+            ErrorKind::Custom(kind) => Some(kind),
+            _ => None,
+        })
+        .next()
+        .unwrap_or(ParseErrorKind::InternalFailure("unrecognized input"))
+}
+
 pub(crate) trait NomErrExt<I, E> {
     /// Add a new error to the error context
     /// Incompletes become failures
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d883c4f..3075d20 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -23,6 +23,7 @@ pub(crate) mod targets;
 pub(crate) mod variable;
 
 use self::error_utils::lift_collapsed_span_error;
+pub(crate) use self::error_utils::parse_error_kind;
 use self::recipe_line::recipe_line;
 
 /// Whether this conditional allows or disallows interpretation of the makefile lines currently.
-- 
2.43.0


From 0bd37c9ef0b8b54a78d3b4cfff3273641b56bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:55 +0000
Subject: [PATCH 12/39] fix: only whole words are keywords, and malformed ifeq
 lines are errors

---
 src/parsers/conditional/mod.rs | 44 ++++++++++++++++++++++------------
 src/parsers/directives/mod.rs  | 30 ++++++++++++++++-------
 src/parsers/mod.rs             |  7 ++++++
 src/parsers/variable/mod.rs    | 22 +++++++++--------
 4 files changed, 70 insertions(+), 33 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index fa0602e..c8696f0 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{at_word_end, error_out, makefile_whitespace};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -151,23 +151,33 @@ fn parse_line_internal<'a>(
         makefile_whitespace,
         add_return_error!(
             ErrorKind::Custom(ParseErrorKind::ConditionalExpected),
-            terminated!(
-                fix_error!(
-                    ParseErrorKind,
-                    alt_complete!(
-                        tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                        tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                        tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                        tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                        tag_no_case!("else") => { |_| ConditionalType::Else } |
-                        tag_no_case!("endif") => { |_| ConditionalType::EndIf }
-                    )
-                ),
-                makefile_whitespace
+            fix_error!(
+                ParseErrorKind,
+                alt_complete!(
+                    tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
+                    tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
+                    tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
+                    tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
+                    tag_no_case!("else") => { |_| ConditionalType::Else } |
+                    tag_no_case!("endif") => { |_| ConditionalType::EndIf }
+                )
             )
         )
     )?;
 
+    // A longer word that merely starts with a keyword isn't a conditional
+    let starts_arguments = match tag {
+        ConditionalType::IfEq | ConditionalType::IfNEq => input
+            .chars()
+            .next()
+            .map_or(false, |c| c == '(' || c == '"' || c == '\''),
+        _ => false,
+    };
+    if !starts_arguments && !at_word_end(input) {
+        return error_out(input, ParseErrorKind::ConditionalExpected);
+    }
+    let (input, _) = makefile_whitespace(input)?;
+
     debug!("Tag is {:?}", tag);
     debug!("Rest is {:?}", input.into_string());
 
@@ -189,7 +199,11 @@ fn parse_line_internal<'a>(
         }
         ConditionalType::IfEq | ConditionalType::IfNEq => {
             // TODO(bobtwinkles): The quality of the errors added to the error stack here are quite low
-            let (input, (arg1, arg2)) = parse_ifeq(input)?;
+            let (input, (arg1, arg2)) = return_error!(
+                input,
+                ErrorKind::Custom(ParseErrorKind::MalformedIfEq),
+                parse_ifeq
+            )?;
 
             if tag == ConditionalType::IfEq {
                 Ok((input, Conditional::IfEq(arg1, arg2)))
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..a7008fb 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::{at_word_end, error_out};
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -94,17 +95,30 @@ impl crate::parsers::ParserState {
 }
 
 pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action, ParseErrorKind> {
+    /// Match a directive name. Longer words that merely start with the name don't count
+    fn directive<'a>(
+        i: BlockSpan<'a>,
+        name: &'static str,
+    ) -> IResult<BlockSpan<'a>, BlockSpan<'a>, ParseErrorKind> {
+        let (rest, matched) = pe_fix!(i, tag_no_case!(name))?;
+        if at_word_end(rest) {
+            Ok((rest, matched))
+        } else {
+            error_out(i, ParseErrorKind::InternalFailure("not a directive"))
+        }
+    }
+
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(apply!(directive, "export"), parse_ast) => { Action::Export }     |
+            preceded!(apply!(directive, "unexport"), parse_ast) => { Action::Unexport } |
+            preceded!(apply!(directive, "vpath"), parse_ast) => { Action::VPath }       |
+            preceded!(apply!(directive, "include"), parse_ast) => { Action::Include }   |
+            preceded!(apply!(directive, "sinclude"), parse_ast) => { Action::SoftInclude }|
+            preceded!(apply!(directive, "-include"), parse_ast) => { Action::SoftInclude }|
+            preceded!(apply!(directive, "load"), parse_ast) => { Action::Load }         |
+            preceded!(apply!(directive, "-load"), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 3075d20..88dbb36 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -346,6 +346,13 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
     fix_error!(input, ParseErrorKind, take_till!(|c| c != ' ' && c != '\t'))
 }
 
+/// Check if a keyword that was just matched is a whole word, i.e. whether the
+/// content after it is empty or starts with whitespace
+#[inline]
+fn at_word_end(rest: BlockSpan) -> bool {
+    rest.chars().next().map_or(true, |c| c.is_whitespace())
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..1bbffe8 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{at_word_end, error_out, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -192,16 +192,13 @@ pub(crate) fn parse_line<'a>(
         }
 
         // Otherwise, try to match against a keyword
-        let (new_i, modifier) = match terminated!(
+        let (new_i, modifier) = match alt!(
             i,
-            alt!(
-                pe_complete!(pe_fix!(tag_no_case!("define"))) => { |_| Modifier::Define } |
-                pe_complete!(pe_fix!(tag_no_case!("export"))) => { |_| Modifier::Export }  |
-                pe_complete!(pe_fix!(tag_no_case!("override"))) => { |_| Modifier::Override } |
-                pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
-                pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
-            ),
-            makefile_whitespace
+            pe_complete!(pe_fix!(tag_no_case!("define"))) => { |_| Modifier::Define } |
+            pe_complete!(pe_fix!(tag_no_case!("export"))) => { |_| Modifier::Export }  |
+            pe_complete!(pe_fix!(tag_no_case!("override"))) => { |_| Modifier::Override } |
+            pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
+            pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -210,6 +207,11 @@ pub(crate) fn parse_line<'a>(
                 return error_out(i, ParseErrorKind::InternalFailure("not an assignment"));
             }
         };
+        if !at_word_end(new_i) {
+            // This is a longer word that merely starts with a modifier
+            return error_out(i, ParseErrorKind::InternalFailure("not an assignment"));
+        }
+        let (new_i, _) = makefile_whitespace(new_i)?;
         debug!(
             "Advancing from {:?} to {:?}",
             i.into_string(),
-- 
2.43.0


From 283b22bfb3c7e58f927445022f174c8da147e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 13/39] fix: function names are whole words

---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index e406270..245a8b2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -162,7 +162,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 5e68cd87ccabaf2b1294e9db4512a296dd4e4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 14/39] fix: allow empty simply-expanded values

---
 src/parsers/variable/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 1bbffe8..5b32632 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -343,9 +343,10 @@ fn parse_variable_assignment<'a>(
     if assignment_type == AssignmentType::Simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
+        // An empty value doesn't come from anywhere in particular
         let location = value_segment
             .location()
-            .expect("value segment should have nonzero length");
+            .unwrap_or(crate::source_location::Location::Synthetic);
         value_ast = ast::preevaluated(location.into(), contents);
     }
 
-- 
2.43.0


From 99929a80b1992d40c25490ba9479c9ede1e8e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 15/39] fix: define bodies are verbatim and assignments honour
 their operator

---
 src/parsers/mod.rs          |  38 +++++--
 src/parsers/variable/mod.rs | 202 ++++++++++++++++++++++--------------
 2 files changed, 154 insertions(+), 86 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 88dbb36..245d1d0 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -54,11 +54,17 @@ struct ConditionalState {
     seen_else: bool,
 }
 
-#[derive(Copy, Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, PartialEq)]
 pub(crate) struct DefineState {
     /// The variable name we're currently defining
     var: VariableName,
 
+    /// The assignment to perform once the define is complete
+    action: variable::Action,
+
+    /// The content of the define that we've seen so far
+    body: Arc<Block>,
+
     // How deeply nested the defines are
     nesting: u32,
 }
@@ -150,7 +156,14 @@ impl ParserState {
             }
         );
 
-        // First, check to see if we're about to try and parse a comment
+        // Everything inside a define is part of the value
+        if self.current_define.is_some() {
+            run_parser!(variable::parse_define_line(i), |action| self
+                .handle_define_line(names, engine, action));
+            panic!("Parsing a define line should never fail");
+        }
+
+        // Check to see if we're about to try and parse a comment
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
@@ -171,16 +184,23 @@ impl ParserState {
                 }
                 Ok(())
             });
-        } else if self.current_define.is_some() {
-            // If we're currently parsing a line inside a define, handle that
-            run_parser!(variable::parse_define_line(i), |action| self
-                .handle_define_line(engine, action));
-            panic!("Parsing a define line should never fail");
         }
 
         // If it's not a recipe line, we can safely collapse all continuations
         // TODO: expose the parser compliance knob upstream
-        let (i, line) = makefile_line(i, ParserCompliance::GNU, true)?;
+        let (mut i, line) = makefile_line(i, ParserCompliance::GNU, true)?;
+
+        // If the line was cut short by a comment, the rest of that comment goes with it
+        {
+            use nom::Slice;
+            let consumed = line_start.slice(..line_start.len() - i.len());
+            if consumed.chars().last() != Some('\n') {
+                if let Ok((after_comment, _)) = comment::parse_comment(i) {
+                    i = after_comment;
+                }
+            }
+        }
+        let i = i;
 
         // Convenience macro for running parsers against the line
         macro_rules! run_line_parser(
@@ -230,7 +250,7 @@ impl ParserState {
                 // Successful variable assignments close the current rule
                 self.close_rule(names, engine);
 
-                self.handle_global_variable_action(engine, variable_action)
+                self.handle_global_variable_action(names, engine, variable_action)
             }
         );
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 5b32632..a094040 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -5,11 +5,12 @@ use super::{at_word_end, error_out, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
-use crate::evaluated::BlockSpan;
+use crate::evaluated::{Block, BlockSpan};
 use crate::parsers::ast::parse_ast;
 use crate::parsers::DefineState;
-use crate::{Engine, ParseErrorKind, VariableName};
+use crate::{Engine, NameCache, ParseErrorKind, VariableName};
 use nom::IResult;
+use std::sync::Arc;
 
 #[cfg(test)]
 mod test;
@@ -37,12 +38,10 @@ enum DefineLineAction {
 /// Structure of a define line
 #[derive(Clone, Debug, PartialEq)]
 pub(crate) struct DefineLine {
-    /// The content of the line
-    content: ast::AstNode,
+    /// The content of the line, including the line break
+    content: Arc<Block>,
     /// What action to take with the content
     action: DefineLineAction,
-    /// The location at which this line starts
-    location: crate::source_location::Location,
 }
 
 /// What action to apply to the variable
@@ -75,6 +74,7 @@ pub(crate) struct VariableAction {
 impl crate::parsers::ParserState {
     pub(crate) fn handle_global_variable_action(
         &mut self,
+        names: &mut NameCache,
         engine: &mut Engine,
         action: VariableAction,
     ) -> Result<(), ParseErrorKind> {
@@ -86,28 +86,20 @@ impl crate::parsers::ParserState {
             unimplemented!("Handling of variable with modifiers {:?}", action.modifiers);
         }
 
-        // If this is a define, just put the parser into define mode
+        // If this is a define, just put the parser into define mode. The
+        // assignment happens once we've seen the whole body
         if action.modifiers.define {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
                 var: action.name,
+                action: action.action,
+                body: Block::empty(),
                 nesting: 1,
             });
+            return Ok(());
         }
 
-        match action.action {
-            Action::Define(parameters) => {
-                engine.database = engine.database.set_variable(action.name, parameters);
-            }
-            Action::Append(node) => {
-                engine.database = engine.database.append_to_variable(
-                    action.name,
-                    node.location(),
-                    VariableParameters::new(node, Flavor::Recursive, crate::eval::Origin::File),
-                    true,
-                )
-            }
-        }
+        assign_global_variable(names, engine, action.name, action.action);
 
         Ok(())
     }
@@ -115,12 +107,13 @@ impl crate::parsers::ParserState {
     /// Handle a line inside of a define
     pub(crate) fn handle_define_line(
         &mut self,
+        names: &mut NameCache,
         engine: &mut Engine,
         action: DefineLine,
     ) -> Result<(), ParseErrorKind> {
-        let define = self
+        let mut define = self
             .current_define
-            .as_mut()
+            .take()
             .expect("handle_define_line called when not defining anything");
 
         match action.action {
@@ -133,24 +126,81 @@ impl crate::parsers::ParserState {
             DefineLineAction::DecreaseNesting => {
                 define.nesting -= 1;
                 if define.nesting == 0 {
-                    // If we reach 0 nesting, unset the define line and return immediately
-                    self.current_define = None;
+                    // If we reach 0 nesting, the body is complete
+                    let value = match parse_ast(define.body.span()) {
+                        Ok((_, value)) => value,
+                        Err(nom::Err::Failure(e)) | Err(nom::Err::Error(e)) => {
+                            return Err(super::parse_error_kind(e))
+                        }
+                        Err(nom::Err::Incomplete(_)) => {
+                            return Err(ParseErrorKind::UnternimatedVariable)
+                        }
+                    };
+                    let action = match define.action {
+                        Action::Define(parameters) => Action::Define(VariableParameters {
+                            unexpanded_value: value,
+                            ..parameters
+                        }),
+                        Action::Append(_) => Action::Append(value),
+                    };
+                    assign_global_variable(names, engine, define.var, action);
                     return Ok(());
                 }
             }
         }
 
-        engine.database = engine.database.append_to_variable(
-            define.var,
-            action.location,
-            VariableParameters::new(action.content, Flavor::Recursive, crate::eval::Origin::File),
-            false,
-        );
+        Arc::make_mut(&mut define.body).push_all_contents(action.content.span());
+        self.current_define = Some(define);
 
         Ok(())
     }
 }
 
+/// Perform a global variable assignment
+fn assign_global_variable(
+    names: &mut NameCache,
+    engine: &mut Engine,
+    name: VariableName,
+    action: Action,
+) {
+    let existing_flavor = engine
+        .database
+        .get_variable(name)
+        .map(|variable| variable.value.flavor);
+
+    match action {
+        Action::Define(mut parameters) => {
+            if parameters.flavor == Flavor::Conditional && existing_flavor.is_some() {
+                // Conditional assignments don't touch variables that already have a value
+                return;
+            }
+            if parameters.flavor == Flavor::Simple {
+                parameters.unexpanded_value =
+                    evaluate_now(names, engine, parameters.unexpanded_value);
+            }
+            engine.database = engine.database.set_variable(name, parameters);
+        }
+        Action::Append(mut node) => {
+            if existing_flavor == Some(Flavor::Simple) {
+                // What we append to a simple variable is simple too
+                node = evaluate_now(names, engine, node);
+            }
+            engine.database = engine.database.append_to_variable(
+                name,
+                node.location(),
+                VariableParameters::new(node, Flavor::Recursive, crate::eval::Origin::File),
+                true,
+            )
+        }
+    }
+}
+
+/// Replace an AST with what it currently evaluates to
+fn evaluate_now(names: &mut NameCache, engine: &mut Engine, value: ast::AstNode) -> ast::AstNode {
+    let contents = value.eval(names, engine);
+    ast::preevaluated(value.location(), contents)
+}
+
 /// Attempt to parse a variable reference in the context of a given database
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
@@ -259,7 +309,10 @@ pub(crate) fn parse_line<'a>(
                     }
                 }
                 // Failing that, just assume the whole thing is one big recursive variable name
-                let variable_name = names.intern_variable_name(i.into_string().trim().into());
+                let (_, name_ast) = parse_ast(i)?;
+                let variable_name = name_ast.eval(names, context);
+                let variable_name = variable_name.into_string().trim().into();
+                let variable_name = names.intern_variable_name(variable_name);
                 let rest = i.slice(i.len()..);
                 return Ok((
                     rest,
@@ -334,22 +387,12 @@ fn parse_variable_assignment<'a>(
     let (value_segment, _) = makefile_whitespace(i)?;
 
     let (_, name_ast) = parse_ast(name_segment)?;
-    let (post_value, mut value_ast) = parse_ast(value_segment)?;
+    let (post_value, value_ast) = parse_ast(value_segment)?;
 
     let variable_name = name_ast.eval(names, context);
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
-        // Evaluate the value AST
-        let contents = value_ast.eval(names, context);
-        // An empty value doesn't come from anywhere in particular
-        let location = value_segment
-            .location()
-            .unwrap_or(crate::source_location::Location::Synthetic);
-        value_ast = ast::preevaluated(location.into(), contents);
-    }
-
     // TODO: the origin reported here is not necessarily correct. We need to
     // inspect ask the block span whether it comes from an $(eval) or a file.
     // We also need to correctly propagate sensitivities
@@ -380,49 +423,54 @@ fn parse_variable_assignment<'a>(
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    use nom::Slice;
     // This parser operates outside of the context of things that have already grabbed lines
     // TODO: maybe just grab a whole define in here? Don't bother with trying to
     // round-trip it through the processing function above
-    // This also uses a specialized version of makefile_grab_line, since we
-    // actually need the line endings to stay intact.
-    let (next_lines, i) = fix_error!(
-        i,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
-                nom::rest // EOF
-        )
-    )?;
+    // We can't use makefile_grab_line here, since the line breaks and anything
+    // that looks like a comment are part of the value.
+    let mut line_len = i.len();
+    let mut next_line = i.len();
+    let mut prev_char = '\0';
+    for (idx, c) in i.char_indices() {
+        if c == '\n' {
+            line_len = if prev_char == '\r' { idx - 1 } else { idx };
+            next_line = idx + 1;
+            break;
+        }
+        prev_char = c;
+    }
+    let next_lines = i.slice(next_line..);
+    let line = i.slice(..line_len);
 
-    debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
-    let (_, ast) = parse_ast(i)?;
+    debug!("Parsing define line {:?}", line.into_string());
+    let mut content = line.to_new_block();
+    if next_line > line_len {
+        Arc::make_mut(&mut content).push_all_contents(i.slice(next_line - 1..next_line));
+    }
 
-    let (i, action) = pe_fix!(
-        i,
-        preceded!(
-            makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+    let (line, _) = makefile_whitespace(line)?;
+    let (rest, action) = pe_fix!(
+        line,
+        alt!(
+            tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
+            tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
+            nom::rest => { |_|  DefineLineAction::Append}
         )
     )?;
-    let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
+    let action = if at_word_end(rest) {
+        action
+    } else {
+        DefineLineAction::Append
+    };
 
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
-        return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
+    if action == DefineLineAction::DecreaseNesting {
+        let (extra, _) = pe_fix!(rest, take_while!(|c: char| c.is_whitespace()))?;
+        match extra.chars().next() {
+            None | Some('#') => {}
+            Some(_) => return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef")),
+        }
     }
 
-    Ok((
-        next_lines,
-        DefineLine {
-            action: action,
-            content: ast,
-            location: location,
-        },
-    ))
+    Ok((next_lines, DefineLine { action, content }))
 }
-- 
2.43.0


From ef00f9f958fcf0955923d0be41ec6bf6d5db0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 16/39] fix: lines without a separator are errors, and empty
 words on a rule line are skipped

---
 src/parsers/targets/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 122a4bb..0ea3001 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -235,6 +230,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +245,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +413,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From 2857a66667298f1c7368ba22456e995d2554aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 17/39] fix: a rule line closes the previous rule before it is
 expanded

---
 src/parsers/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 245d1d0..b002ed7 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -264,13 +264,13 @@ impl ParserState {
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
 
+        // Anything that reaches this point closes the current rule. This has to
+        // happen before the line is expanded, since the expansion may define rules
+        self.close_rule(names, engine);
+
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
-            |target_action| {
-                self.close_rule(names, engine);
-
-                self.handle_target_action(engine, target_action)
-            }
+            |target_action| self.handle_target_action(engine, target_action)
         );
 
         Ok((i, ()))
-- 
2.43.0


From 9e45613aa04ecea98ce24f678ab70569f2208610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 18/39] fix: report recipe lines outside of a rule

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index b002ed7..6e6ed13 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -259,7 +259,7 @@ impl ParserState {
             self.handle_directive_action(names, engine, directive_action)
         });
 
-        if line.span().chars().next() == Some(engine.command_char) {
+        if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
-- 
2.43.0


From ee32eafcf0649862b7a49fd5530b45a8c0956443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:33 +0000
Subject: [PATCH 19/39] fix: recipe continuation lines don't need the command
 character

---
 src/parsers/recipe_line.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 3c2c94a..1076837 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -40,25 +40,22 @@ pub(super) fn recipe_line<'a>(
 
     let mut line = line.to_new_block();
 
-    while ends_with_backslash(line.span()) & 1 == 1 {
+    while ends_with_backslash(line.span()) & 1 == 1 && i.len() > 0 {
         Arc::make_mut(&mut line).push(ContentReference::newline()); // Add back the \n we striped
-        let next_line_result = grab_command_line!(i);
-        match next_line_result {
-            Ok((new_i, (next_line, end_reason))) => {
-                Arc::make_mut(&mut line).push(next_line.to_content_reference());
-                i = new_i;
-
-                // If the line has a comment, stop the line (and processing)
-                if end_reason == super::LineEndReason::Comment {
-                    let (_, ast) = parse_ast(line.span())
-                        .map_err(|e| lift_collapsed_span_error(e, line_start))?;
-                    return Ok((i, ast));
-                }
-            }
-            Err(_) => {
-                // If we couldn't grab a line, this must not be a command line
-                break;
-            }
+
+        // The next line is part of the recipe no matter what it starts with. If
+        // it starts with the command character, that is removed
+        let (new_i, (next_line, end_reason)) = preceded!(
+            i,
+            fix_error!(ParseErrorKind, opt!(char!(command_char))),
+            makefile_grab_line
+        )?;
+        Arc::make_mut(&mut line).push_all_contents(next_line);
+        i = new_i;
+
+        // If the line has a comment, stop the line (and processing)
+        if end_reason == super::LineEndReason::Comment {
+            break;
         }
     }
 
-- 
2.43.0


From 82320819bc8833725671713dfac9f0b7cb36eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 20/39] fix: substitution references match whole prefixes and
 suffixes of words

---
 src/ast/text_functions.rs | 69 +++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..97e7a2b 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -23,16 +23,16 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     pre_replacement.span(),
-                    post_replacement,
+                    Some(post_replacement),
                 ),
-                // Only key had a %
+                // Only key had a %, so matching words are replaced entirely
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
-                    BlockSpan::empty(),
                     replacement.span(),
+                    None,
                 ),
             }
         }
@@ -42,20 +42,25 @@ pub(super) fn do_subref(
             "",
             &key.into_string(),
             BlockSpan::empty(),
-            replacement.span(),
+            Some(replacement.span()),
         ),
     }
 }
 
-/// Internal function that can actually do replacement
+/// Internal function that can actually do replacement. Words that start with
+/// `pre_key` and end with `post_key` are replaced with `pre_replacement`. If
+/// there is a `post_replacement`, that is followed by whatever was between the
+/// two parts of the key, and then by `post_replacement`.
 fn do_replacement<'a>(
     mut tokens: BlockSpan,
     sensitivity: Set<VariableName>,
     pre_key: &str,
     post_key: &str,
     pre_replacement: BlockSpan,
-    post_replacement: BlockSpan,
+    post_replacement: Option<BlockSpan>,
 ) -> Arc<Block> {
+    use nom::Slice;
+
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
@@ -63,6 +68,11 @@ fn do_replacement<'a>(
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was nothing but whitespace left
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
@@ -70,44 +80,25 @@ fn do_replacement<'a>(
             first = false;
         }
 
-        debug!("processing token {:?}", token.into_string());
-
-        if token.len() < total_key_length {
-            // The token is too short to match the key, just push all its contents unmodified
-            debug!("Skipping because too short");
-            Arc::make_mut(&mut output).push_all_contents(token);
-            continue;
-        }
+        let token_text = token.into_string();
+        debug!("processing token {:?}", token_text);
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
+        if token.len() < total_key_length
+            || !token_text.starts_with(pre_key)
+            || !token_text.ends_with(post_key)
+        {
+            // The token doesn't match the key, just push all its contents unmodified
+            debug!("Skipping because it does not match");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
         // Push the replacement
-        Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
-        Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
+        Arc::make_mut(&mut output).push_all_contents(pre_replacement);
+        if let Some(post_replacement) = post_replacement {
+            let captured = token.slice(pre_key.len()..token.len() - post_key.len());
+            Arc::make_mut(&mut output).push_all_contents(captured);
+            Arc::make_mut(&mut output).push_all_contents(post_replacement);
+        }
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
     // the block before returning it
-- 
2.43.0


From c9b60e0d8cf4b437d45b81784017f2b94736e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 21/39] fix: pre-evaluated values keep their sensitivity

---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From a4cbe9ffa64d541a9ca39b3156198918dfbad1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 22/39] fix: rules are sensitive to the variables their text
 came from

---
 src/evaluated/mod.rs       | 11 ++++++++---
 src/parsers/mod.rs         | 10 ++++++----
 src/parsers/targets/mod.rs |  7 +++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..6526c65 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -133,9 +133,14 @@ impl Block {
         // variable isn't actually in the provided span), but for now err on the
         // side of caution
         if !std::ptr::eq(self, span.parent) {
-            for v in span.parent.sensitivity.iter() {
-                self.sensitivity = self.sensitivity.update(*v);
-            }
+            self.merge_sensitivity(span.parent);
+        }
+    }
+
+    /// Add the sensitivity of another block to this one
+    pub(crate) fn merge_sensitivity(&mut self, other: &Block) {
+        for v in other.sensitivity.iter() {
+            self.sensitivity = self.sensitivity.update(*v);
         }
     }
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6e6ed13..6fec3c0 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -554,6 +554,8 @@ pub(crate) fn makefile_line(
         }
     }
 
+    // The line is sensitive to everything the text it comes from is sensitive to
+    let sensitivity = i.parent().raw_sensitivity();
     let (new_i, mut first_line) = if strip_initial_whitespace {
         preceded!(i, makefile_whitespace, makefile_grab_line)?
     } else {
@@ -565,7 +567,7 @@ pub(crate) fn makefile_line(
     if backslash_count & 1 == 0 {
         // There is an even number of backslashes, so don't escape them
         lines.push(first_line.0.to_content_reference());
-        return Ok((i, Block::new(Default::default(), lines)));
+        return Ok((i, Block::new(sensitivity, lines)));
     }
     // Otherwise, we need to clean up the line
     clean_line_end(&mut first_line.0, backslash_count, whitespace_handling);
@@ -594,11 +596,11 @@ pub(crate) fn makefile_line(
             Ok(x) => x,
             Err(NErr::Incomplete(_)) => {
                 debug!("Incomplete parse while trying to grab a full line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, Block::new(sensitivity, lines)));
             }
             Err(NErr::Error(_)) => {
                 debug!("Was not able to find more line while pulling makefile line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, Block::new(sensitivity, lines)));
             }
             Err(NErr::Failure(e)) => {
                 // propegate failures
@@ -623,7 +625,7 @@ pub(crate) fn makefile_line(
         }
     }
 
-    Ok((i, Block::new(Default::default(), lines)))
+    Ok((i, Block::new(sensitivity, lines)))
 }
 
 /// Create a new Nom `IResult` recoverable error with our custom error kind
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 0ea3001..cb5114e 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -135,8 +135,11 @@ pub(crate) fn parse_line<'a>(
 
     macro_rules! expand_segment {
         ($seg:expr) => {{
-            let (_, ast) = parse_ast($seg).map_err(|e| lift_collapsed_span_error(e, line_start))?;
-            let v = ast.eval(names, engine);
+            let seg = $seg;
+            let (_, ast) = parse_ast(seg).map_err(|e| lift_collapsed_span_error(e, line_start))?;
+            let mut v = ast.eval(names, engine);
+            // The text we just expanded may itself be the result of an expansion
+            Arc::make_mut(&mut v).merge_sensitivity(seg.parent());
             v
         }};
     }
-- 
2.43.0


From a2881b0479bb2bc8ef69d18d980b88765905dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 23/39] fix: separators inside variable references don't end a
 variable name

---
 src/parsers/variable/mod.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index a094040..791bda3 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -341,16 +341,26 @@ pub(crate) fn parse_line<'a>(
 fn parse_assignment_operator<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, AssignmentType), ParseErrorKind> {
-    let (i, variable_name) = match take_till!(i, |c: char| c.is_whitespace()
-        || c == ':'
-        || c == '='
-        || c == '!'
-        || c == '?'
-        || c == '+')
-    {
-        Ok(v) => v,
-        Err(_) => return error_out(i, ParseErrorKind::InternalFailure("name not captured")),
-    };
+    use nom::InputTake;
+
+    // The name ends at the first separator that isn't part of a variable reference
+    let mut name_end = i.len();
+    let mut open_brackets = Vec::new();
+    let mut prev_char = '\0';
+    for (idx, c) in i.char_indices() {
+        if (c == '(' || c == '{') && (prev_char == '$' || !open_brackets.is_empty()) {
+            open_brackets.push(if c == '(' { ')' } else { '}' });
+        } else if open_brackets.last() == Some(&c) {
+            open_brackets.pop();
+        } else if open_brackets.is_empty()
+            && (c.is_whitespace() || c == ':' || c == '=' || c == '!' || c == '?' || c == '+')
+        {
+            name_end = idx;
+            break;
+        }
+        prev_char = c;
+    }
+    let (i, variable_name) = i.take_split(name_end);
 
     debug!(
         "Captured variable name {:?}, {:?} left to parse",
-- 
2.43.0


From eb4401381b0c533d308ad240d261963d63a91b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:27 +0000
Subject: [PATCH 24/39] fix: copy spans whose first piece is empty

---
 src/evaluated/block_span.rs | 2 +-
 src/evaluated/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index ab96342..57c5222 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -92,7 +92,7 @@ impl<'a> BlockSpan<'a> {
         }
 
         assert!(self.contents.len() > 0);
-        assert!(self.offset < self.contents[0].length);
+        assert!(self.offset <= self.contents[0].length);
 
         let mut nodes = Vec::new();
         let mut contents_iter = self.contents.iter().map(|x| x.clone());
diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index 6526c65..7eabbc5 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -106,7 +106,7 @@ impl Block {
 
         // Add all the content
         assert!(span.contents.len() > 0);
-        assert!(span.offset < span.contents[0].length);
+        assert!(span.offset <= span.contents[0].length);
 
         let mut contents_iter = span.contents.iter().map(|x| x.clone());
         // Unwrap is safe since we asserted above that contents length was > 0
-- 
2.43.0


From 4eee833f9f6ece3d04a91bcebf5f092b3c5322c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:55 +0000
Subject: [PATCH 25/39] fix: an assignment in an inline command is not a
 target-specific variable

---
 src/parsers/targets/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index cb5114e..6f052bd 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -302,18 +302,23 @@ pub(crate) fn parse_line<'a>(
         }
     };
 
-    // Try to match against a variable assignment operation
-    match parse_variable_line(post_targets_slice, names, engine) {
-        Ok((_, action)) => {
-            return Ok((
-                rest,
-                Action::TargetVariable {
-                    targets,
-                    variable_action: action,
-                },
-            ));
+    // Try to match against a variable assignment operation. Only what's before
+    // the semicolon decides, an assignment after it is part of the command
+    let is_assignment =
+        parse_variable_line(post_targets_slice.slice(..pre_semi_len), names, engine).is_ok();
+    if is_assignment {
+        match parse_variable_line(post_targets_slice, names, engine) {
+            Ok((_, action)) => {
+                return Ok((
+                    rest,
+                    Action::TargetVariable {
+                        targets,
+                        variable_action: action,
+                    },
+                ));
+            }
+            Err(_) => {}
         }
-        Err(_) => {}
     }
 
     // Expand the pre-semicolon slice
-- 
2.43.0


From bc17169951443a96e08e9a1b45f25da93282dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:54 +0000
Subject: [PATCH 26/39] verif: list defined variables behind cfg(hastur_verif)

---
 src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d4b4c92..c4db912 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -417,6 +417,33 @@ impl Database {
     }
 }
 
+#[cfg(hastur_verif)]
+impl Database {
+    /// Verification hook: the names of all defined global variables
+    pub fn verif_variables(&self) -> Vec<VariableName> {
+        self.variables.keys().map(|x| *x).collect()
+    }
+
+    /// Verification hook: the names of all defined target variables
+    pub fn verif_target_variables(&self) -> Vec<(FileName, VariableName)> {
+        let mut tr = Vec::new();
+        for (target, variables) in self.target_variables.iter() {
+            for name in variables.keys() {
+                tr.push((*target, *name));
+            }
+        }
+        tr
+    }
+}
+
+#[cfg(hastur_verif)]
+impl NameCache {
+    /// Verification hook: the text of an interned variable name
+    pub fn verif_resolve_variable_name(&self, v: VariableName) -> Option<&str> {
+        self.variable_names.resolve(v.0)
+    }
+}
+
 /// Represents all the things that can go wrong while parsing an evaluating
 /// makefile statements.
 #[derive(Debug)]
-- 
2.43.0


From 485fa1051faa8eb301da55a1e324ee417ad82a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:59 +0000
Subject: [PATCH 27/39] fix: an escaped separator at the end of a rule line
 belongs to the word

The word scanner skipped the escaped character without extending the word,
so the last character of a line like 'a\:' was taken as an unescaped colon.
---
 src/parsers/targets/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 6f052bd..f1f8ca1 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -513,11 +513,12 @@ fn next_mword<'a>(
 
         if chr == '\\' {
             prev_char = chr;
-            if let Some((_, chr)) = char_iter.peek() {
-                let chr = *chr;
+            if let Some((idx, chr)) = char_iter.peek() {
+                let (idx, chr) = (*idx, *chr);
                 if chr == ':' || chr == ';' || chr == '=' || chr == '\\' {
                     // This is escaping something, skip forward
                     prev_char = chr;
+                    stop_index = idx + chr.len_utf8();
                     char_iter.next();
                 }
             }
-- 
2.43.0


From 96daf088769815f394a8f9343e95cf89d4e7c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:59 +0000
Subject: [PATCH 28/39] fix: an error closes the open rule as the end of the
 file does

The lines before the error have been read, but the rule they opened was lost
unless the error happened to be found after it was closed.
---
 src/lib.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c4db912..760c968 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -625,26 +625,25 @@ impl Engine {
             }
         };
 
+        let mut result = Ok(());
         while i.len() > 0 {
-            let (new_i, _) = match parser_state.parse_line(i, names, self) {
-                Ok(v) => v,
-                Err(NErr::Failure(e)) | Err(NErr::Error(e)) => {
-                    return Err(MakefileError::ParseError(parsers::parse_error_kind(e)))
-                }
-                Err(NErr::Incomplete(_)) => {
-                    return Err(MakefileError::ParseError(ParseErrorKind::InternalFailure(
-                        "incomplete line",
-                    )))
+            let error = match parser_state.parse_line(i, names, self) {
+                Ok((new_i, _)) => {
+                    i = new_i;
+                    continue;
                 }
+                Err(NErr::Failure(e)) | Err(NErr::Error(e)) => parsers::parse_error_kind(e),
+                Err(NErr::Incomplete(_)) => ParseErrorKind::InternalFailure("incomplete line"),
             };
-
-            i = new_i;
+            result = Err(MakefileError::ParseError(error));
+            break;
         }
 
-        // The end of the input closes whatever rule is still open
+        // The end of the input closes whatever rule is still open, and so does
+        // an error: the lines before it have been read
         parser_state.close_rule(names, self);
 
-        Ok(())
+        result
     }
 }
 
-- 
2.43.0


From ba501ba4f8e853331c2844b8ae19c97804b4d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:57 +0000
Subject: [PATCH 29/39] fix: report wrong argument counts in assignments as
 such

Only unterminated references were reported right away, everything else was read
again as a rule line and could end up as another error.
---
 src/parsers/variable/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 791bda3..964387c 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -233,7 +233,9 @@ pub(crate) fn parse_line<'a>(
             Ok(v) => return Ok(v),
             Err(e) => {
                 match e.clone().into_error_kind() {
-                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable) => return Err(e),
+                    nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable)
+                    | nom::ErrorKind::Custom(ParseErrorKind::InsufficientArguments(_))
+                    | nom::ErrorKind::Custom(ParseErrorKind::ExtraArguments(_)) => return Err(e),
                     _ => {
                         // We don't propagate any other kind of error
                     }
-- 
2.43.0


From 4079071c211017d3c5f8432aa6ea5ea01148b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:52 +0000
Subject: [PATCH 30/39] fix: only ASCII whitespace separates file names

A no-break space (or any other Unicode space) in a target, dependency or
include list split the name in two, where make keeps it.
---
 src/parsers/file_sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/file_sequence.rs b/src/parsers/file_sequence.rs
index 1ee0de4..65c463b 100644
--- a/src/parsers/file_sequence.rs
+++ b/src/parsers/file_sequence.rs
@@ -66,7 +66,7 @@ pub(crate) fn parse_file_seq<'a>(
 
     while remaining_content.len() > 0 {
         match crate::parsers::makefile_take_until_unquote(remaining_content, |c| {
-            c.is_whitespace() || c == '\0' || options.extra_stopchars.find(c).is_some()
+            c.is_ascii_whitespace() || c == '\0' || options.extra_stopchars.find(c).is_some()
         }) {
             (pre, Some((_, post))) => {
                 if pre.len() > 0 {
-- 
2.43.0


From d1a76f4943c66702b92e6741aa9b5b01bf96f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 31/39] fix: only ASCII whitespace ends keywords and variable
 names

A no-break space (or any other Unicode space) is an ordinary character to
make: "n<NBSP>=1" defines a variable of that name, and
"include<NBSP>f" is not an include.
---
 src/parsers/mod.rs          |  2 +-
 src/parsers/variable/mod.rs | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6fec3c0..a54a0c2 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -370,7 +370,7 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
 /// content after it is empty or starts with whitespace
 #[inline]
 fn at_word_end(rest: BlockSpan) -> bool {
-    rest.chars().next().map_or(true, |c| c.is_whitespace())
+    rest.chars().next().map_or(true, |c| c.is_ascii_whitespace())
 }
 
 /// Capture the next token in the input
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 964387c..a53db5e 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -284,7 +284,10 @@ pub(crate) fn parse_line<'a>(
                             // TODO: propagate sensitivity from the name?
                             let (_, name_ast) = parse_ast(variable_name)?;
                             let variable_name = name_ast.eval(names, context);
-                            let variable_name = variable_name.into_string().trim().into();
+                            let variable_name = variable_name
+                                .into_string()
+                                .trim_matches(|c: char| c.is_ascii_whitespace())
+                                .into();
                             let variable_name = names.intern_variable_name(variable_name);
                             return Ok((
                                 trailing,
@@ -313,7 +316,10 @@ pub(crate) fn parse_line<'a>(
                 // Failing that, just assume the whole thing is one big recursive variable name
                 let (_, name_ast) = parse_ast(i)?;
                 let variable_name = name_ast.eval(names, context);
-                let variable_name = variable_name.into_string().trim().into();
+                let variable_name = variable_name
+                    .into_string()
+                    .trim_matches(|c: char| c.is_ascii_whitespace())
+                    .into();
                 let variable_name = names.intern_variable_name(variable_name);
                 let rest = i.slice(i.len()..);
                 return Ok((
@@ -355,7 +361,12 @@ fn parse_assignment_operator<'a>(
         } else if open_brackets.last() == Some(&c) {
             open_brackets.pop();
         } else if open_brackets.is_empty()
-            && (c.is_whitespace() || c == ':' || c == '=' || c == '!' || c == '?' || c == '+')
+            && (c.is_ascii_whitespace()
+                || c == ':'
+                || c == '='
+                || c == '!'
+                || c == '?'
+                || c == '+')
         {
             name_end = idx;
             break;
@@ -402,7 +413,10 @@ fn parse_variable_assignment<'a>(
     let (post_value, value_ast) = parse_ast(value_segment)?;
 
     let variable_name = name_ast.eval(names, context);
-    let variable_name = variable_name.into_string().trim().into();
+    let variable_name = variable_name
+        .into_string()
+        .trim_matches(|c: char| c.is_ascii_whitespace())
+        .into();
     let variable_name = names.intern_variable_name(variable_name);
 
     // TODO: the origin reported here is not necessarily correct. We need to
@@ -477,7 +491,7 @@ pub(crate) fn parse_define_line<'a>(
     };
 
     if action == DefineLineAction::DecreaseNesting {
-        let (extra, _) = pe_fix!(rest, take_while!(|c: char| c.is_whitespace()))?;
+        let (extra, _) = pe_fix!(rest, take_while!(|c: char| c.is_ascii_whitespace()))?;
         match extra.chars().next() {
             None | Some('#') => {}
             Some(_) => return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef")),
-- 
2.43.0


From 0a7eaed2f9db1b07372a531de085651cbf6a6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 32/39] verif: evaluated tree accessors behind
 cfg(hastur_verif)

---
 src/evaluated/content_reference.rs | 8 ++++++++
 src/evaluated/nodes.rs             | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 9a13a79..0c34e56 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -146,6 +146,14 @@ impl ContentReference {
     }
 }
 
+#[cfg(hastur_verif)]
+impl ContentReference {
+    /// Verification hook: the node this refers to, and which bytes of it
+    pub fn verif_parts(&self) -> (&EvaluatedNode, usize, usize) {
+        (&self.node, self.offset, self.length)
+    }
+}
+
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
 pub struct ContentReferenceIter<'a> {
diff --git a/src/evaluated/nodes.rs b/src/evaluated/nodes.rs
index 495b52d..4ff4497 100644
--- a/src/evaluated/nodes.rs
+++ b/src/evaluated/nodes.rs
@@ -171,6 +171,14 @@ impl VariableReference {
     }
 }
 
+#[cfg(hastur_verif)]
+impl VariableReference {
+    /// Verification hook: what the variable expanded to
+    pub fn verif_value(&self) -> &Block {
+        &self.value
+    }
+}
+
 /// A reference to a variable that applies some substitution
 // #SPC-Variable-Eval.substitution_reference
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 90a80132ccfb93977b039936b313d55475ed602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 33/39] fix: a substitution reference splits at the first colon

$(x:.c=.o:z) was read as a reference to a variable of that whole name.
---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index cc209f7..37385fb 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -129,7 +129,7 @@ impl AstNode {
                 debug!("Variable name is {:?}", name.into_string());
                 let colon_find = pair!(
                     name.span(),
-                    recognize!(many1!(take_until_and_consume!(":"))),
+                    recognize!(take_until_and_consume!(":")),
                     recognize!(many1!(take_until_and_consume!("=")))
                 );
                 match colon_find {
-- 
2.43.0


From e61470b16845c00a7c9211235009a6058f4f7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 34/39] fix: the continuation of a line in a define is never a
 keyword

A body line that continues another one and starts with endef or define
closed or nested the define.
---
 src/parsers/mod.rs          |  7 +++++--
 src/parsers/variable/mod.rs | 21 ++++++++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index a54a0c2..0539812 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -67,6 +67,9 @@ pub(crate) struct DefineState {
 
     // How deeply nested the defines are
     nesting: u32,
+
+    /// Whether the next line continues the previous one
+    continued: bool,
 }
 
 /// Contains the information that may come out of a rule line. Note that this is
@@ -157,8 +160,8 @@ impl ParserState {
         );
 
         // Everything inside a define is part of the value
-        if self.current_define.is_some() {
-            run_parser!(variable::parse_define_line(i), |action| self
+        if let Some(continued) = self.current_define.as_ref().map(|define| define.continued) {
+            run_parser!(variable::parse_define_line(i, continued), |action| self
                 .handle_define_line(names, engine, action));
             panic!("Parsing a define line should never fail");
         }
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index a53db5e..eda23ca 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -42,6 +42,8 @@ pub(crate) struct DefineLine {
     content: Arc<Block>,
     /// What action to take with the content
     action: DefineLineAction,
+    /// Whether the line is continued by the next one
+    continued: bool,
 }
 
 /// What action to apply to the variable
@@ -95,6 +97,7 @@ impl crate::parsers::ParserState {
                 action: action.action,
                 body: Block::empty(),
                 nesting: 1,
+                continued: false,
             });
             return Ok(());
         }
@@ -149,6 +152,7 @@ impl crate::parsers::ParserState {
             }
         }
 
+        define.continued = action.continued;
         Arc::make_mut(&mut define.body).push_all_contents(action.content.span());
         self.current_define = Some(define);
 
@@ -445,9 +449,11 @@ fn parse_variable_assignment<'a>(
     ))
 }
 
-/// Parse a line inside a define
+/// Parse a line inside a define. The continuation of another line is never a
+/// keyword.
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
+    is_continuation: bool,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
     use nom::Slice;
     // This parser operates outside of the context of things that have already grabbed lines
@@ -476,6 +482,8 @@ pub(crate) fn parse_define_line<'a>(
     }
 
     let (line, _) = makefile_whitespace(line)?;
+    // The first line that is more than a line break decides what a continued line is
+    let continued = super::ends_with_backslash(line) & 1 == 1 && (is_continuation || line.len() > 1);
     let (rest, action) = pe_fix!(
         line,
         alt!(
@@ -484,7 +492,7 @@ pub(crate) fn parse_define_line<'a>(
             nom::rest => { |_|  DefineLineAction::Append}
         )
     )?;
-    let action = if at_word_end(rest) {
+    let action = if at_word_end(rest) && !is_continuation {
         action
     } else {
         DefineLineAction::Append
@@ -498,5 +506,12 @@ pub(crate) fn parse_define_line<'a>(
         }
     }
 
-    Ok((next_lines, DefineLine { action, content }))
+    Ok((
+        next_lines,
+        DefineLine {
+            action,
+            content,
+            continued,
+        },
+    ))
 }
-- 
2.43.0


From c615718246d0b49e342fca224c3fd80fc4f0309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 35/39] fix: define and endef in recipe lines of a define are
 part of its body

A body line that starts with the command character belongs to a recipe.
---
 src/parsers/mod.rs          | 4 +++-
 src/parsers/variable/mod.rs | 9 ++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0539812..03cce10 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -161,7 +161,9 @@ impl ParserState {
 
         // Everything inside a define is part of the value
         if let Some(continued) = self.current_define.as_ref().map(|define| define.continued) {
-            run_parser!(variable::parse_define_line(i, continued), |action| self
+            // Neither recipe lines nor the rest of a continued line are keywords
+            let verbatim = continued || i.chars().next() == Some(engine.command_char);
+            run_parser!(variable::parse_define_line(i, verbatim), |action| self
                 .handle_define_line(names, engine, action));
             panic!("Parsing a define line should never fail");
         }
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index eda23ca..fcced14 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -449,11 +449,10 @@ fn parse_variable_assignment<'a>(
     ))
 }
 
-/// Parse a line inside a define. The continuation of another line is never a
-/// keyword.
+/// Parse a line inside a define. If it is verbatim, it is never a keyword.
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
-    is_continuation: bool,
+    verbatim: bool,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
     use nom::Slice;
     // This parser operates outside of the context of things that have already grabbed lines
@@ -483,7 +482,7 @@ pub(crate) fn parse_define_line<'a>(
 
     let (line, _) = makefile_whitespace(line)?;
     // The first line that is more than a line break decides what a continued line is
-    let continued = super::ends_with_backslash(line) & 1 == 1 && (is_continuation || line.len() > 1);
+    let continued = super::ends_with_backslash(line) & 1 == 1 && (verbatim || line.len() > 1);
     let (rest, action) = pe_fix!(
         line,
         alt!(
@@ -492,7 +491,7 @@ pub(crate) fn parse_define_line<'a>(
             nom::rest => { |_|  DefineLineAction::Append}
         )
     )?;
-    let action = if at_word_end(rest) && !is_continuation {
+    let action = if at_word_end(rest) && !verbatim {
         action
     } else {
         DefineLineAction::Append
-- 
2.43.0


From bcc49df968339b2e77bf05e68bd5f122068f543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 36/39] fix: text in a skipped branch may be malformed

---
 src/parsers/conditional/mod.rs | 22 ++++++++++++++++++++--
 src/parsers/mod.rs             | 20 ++++++++++++--------
 src/parsers/recipe_line.rs     | 22 ++++++++++++++--------
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index c8696f0..672d1a1 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -122,7 +122,16 @@ impl crate::parsers::ParserState {
 pub(super) fn parse_line<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, Conditional, ParseErrorKind> {
-    match parse_line_internal(i) {
+    parse_line_ignoring(i, false)
+}
+
+/// Parse a conditional line. If it is being ignored, whatever is tested may be
+/// malformed
+pub(super) fn parse_line_ignoring<'a>(
+    i: BlockSpan<'a>,
+    ignoring: bool,
+) -> IResult<BlockSpan<'a>, Conditional, ParseErrorKind> {
+    match parse_line_internal(i, ignoring) {
         Ok((i, c)) => Ok((i, c)),
         Err(Err::Incomplete(_)) => Err(Err::Failure(Context::Code(
             i,
@@ -136,6 +145,7 @@ pub(super) fn parse_line<'a>(
 /// level to avoid duplicate work computing the collapsed line?
 fn parse_line_internal<'a>(
     input: BlockSpan<'a>,
+    ignoring: bool,
 ) -> IResult<BlockSpan<'a>, Conditional, ParseErrorKind> {
     #[derive(Copy, Clone, Debug, PartialEq, Eq)]
     enum ConditionalType {
@@ -182,6 +192,14 @@ fn parse_line_internal<'a>(
     debug!("Rest is {:?}", input.into_string());
 
     match tag {
+        ConditionalType::IfDef
+        | ConditionalType::IfNDef
+        | ConditionalType::IfEq
+        | ConditionalType::IfNEq
+            if ignoring =>
+        {
+            Ok((input, Conditional::IfDef(crate::ast::empty())))
+        }
         ConditionalType::IfDef | ConditionalType::IfNDef => {
             // #SPC-P-Conditional.ifdef
             let (input, rest) = return_error!(
@@ -330,7 +348,7 @@ fn parse_else<'a>(
         let (input, cond) = return_error!(
             input,
             ErrorKind::Custom(ParseErrorKind::ExtraTokensAfter("else")),
-            parse_line_internal
+            apply!(parse_line_internal, false)
         )?;
 
         match cond {
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 03cce10..34869a2 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -24,7 +24,7 @@ pub(crate) mod variable;
 
 use self::error_utils::lift_collapsed_span_error;
 pub(crate) use self::error_utils::parse_error_kind;
-use self::recipe_line::recipe_line;
+use self::recipe_line::{recipe_line, recipe_text};
 
 /// Whether this conditional allows or disallows interpretation of the makefile lines currently.
 /// the moral equivalent of this enum (the char *ignoring in the conditional code for GNU make)
@@ -181,12 +181,14 @@ impl ParserState {
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
+            if self.ignoring {
+                // A conditional excludes the line, so don't look at its text
+                run_parser!(recipe_text(i, engine.command_char), |_| Ok(()));
+            }
             run_parser!(recipe_line(i, engine.command_char), |line| {
-                // Push the line, unless a conditional excludes it. This is safe
-                // since we only run this parser if we're currently processing a rule
-                if !self.ignoring {
-                    self.push_command_line(line);
-                }
+                // Push the line. This is safe since we only run this parser if
+                // we're currently processing a rule
+                self.push_command_line(line);
                 Ok(())
             });
         }
@@ -239,8 +241,10 @@ impl ParserState {
             return Ok((i, ()));
         }
 
-        run_line_parser!(conditional::parse_line(line.span()), |conditional| self
-            .handle_conditional(conditional, names, engine));
+        run_line_parser!(
+            conditional::parse_line_ignoring(line.span(), self.ignoring),
+            |conditional| self.handle_conditional(conditional, names, engine)
+        );
 
         if self.ignoring {
             // The parse state indicates that we should just ignore this line
diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 1076837..073c3e4 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -2,7 +2,7 @@
 
 use super::{ends_with_backslash, lift_collapsed_span_error, makefile_grab_line};
 use crate::ast::AstNode;
-use crate::evaluated::{BlockSpan, ContentReference};
+use crate::evaluated::{Block, BlockSpan, ContentReference};
 use crate::parsers::ast::parse_ast;
 use crate::ParseErrorKind;
 use nom::IResult;
@@ -13,6 +13,17 @@ pub(super) fn recipe_line<'a>(
     i: BlockSpan<'a>,
     command_char: char,
 ) -> IResult<BlockSpan<'a>, AstNode, ParseErrorKind> {
+    let (rest, line) = recipe_text(i, command_char)?;
+    let (_, ast) = parse_ast(line.span()).map_err(|e| lift_collapsed_span_error(e, i))?;
+
+    Ok((rest, ast))
+}
+
+/// Recognizes a recipe line, without parsing its text
+pub(super) fn recipe_text<'a>(
+    i: BlockSpan<'a>,
+    command_char: char,
+) -> IResult<BlockSpan<'a>, Arc<Block>, ParseErrorKind> {
     macro_rules! grab_command_line(
         ($i:expr ) => { grab_command_line!($i , ) };
         ($i:expr, ) => {
@@ -30,12 +41,9 @@ pub(super) fn recipe_line<'a>(
         grab_command_line!()
     )?;
 
-    let line_start = line;
-
     // If the line has a comment, stop the line (and processing)
     if end_reason == super::LineEndReason::Comment {
-        let (_, ast) = parse_ast(line)?;
-        return Ok((i, ast));
+        return Ok((i, line.to_new_block()));
     }
 
     let mut line = line.to_new_block();
@@ -59,9 +67,7 @@ pub(super) fn recipe_line<'a>(
         }
     }
 
-    let (_, ast) = parse_ast(line.span()).map_err(|e| lift_collapsed_span_error(e, line_start))?;
-
-    Ok((i, ast))
+    Ok((i, line))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 272e51a9301bb6e0808fa32cf5229ad3f24b7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 37/39] fix: the body of a define in a skipped branch is not
 interpreted

---
 src/parsers/mod.rs          | 12 ++++++----
 src/parsers/variable/mod.rs | 47 ++++++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 34869a2..42aac25 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -56,11 +56,9 @@ struct ConditionalState {
 
 #[derive(Clone, Debug, PartialEq)]
 pub(crate) struct DefineState {
-    /// The variable name we're currently defining
-    var: VariableName,
-
-    /// The assignment to perform once the define is complete
-    action: variable::Action,
+    /// The variable name we're currently defining, and the assignment to perform
+    /// once the define is complete. None if the define is being ignored
+    assignment: Option<(VariableName, variable::Action)>,
 
     /// The content of the define that we've seen so far
     body: Arc<Block>,
@@ -249,6 +247,10 @@ impl ParserState {
         if self.ignoring {
             // The parse state indicates that we should just ignore this line
             // We've already collapsed continuations, so just return immediately
+            if variable::starts_define(line.span()) {
+                // The body isn't ours to interpret either way
+                self.start_define(None);
+            }
             return Ok((i, ()));
         }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index fcced14..5997dda 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{at_word_end, error_out, makefile_whitespace};
+use super::{at_word_end, error_out, makefile_token, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -91,14 +91,7 @@ impl crate::parsers::ParserState {
         // If this is a define, just put the parser into define mode. The
         // assignment happens once we've seen the whole body
         if action.modifiers.define {
-            assert!(!self.current_define.is_some());
-            self.current_define = Some(DefineState {
-                var: action.name,
-                action: action.action,
-                body: Block::empty(),
-                nesting: 1,
-                continued: false,
-            });
+            self.start_define(Some((action.name, action.action)));
             return Ok(());
         }
 
@@ -107,6 +100,17 @@ impl crate::parsers::ParserState {
         Ok(())
     }
 
+    /// Put the parser into define mode
+    pub(crate) fn start_define(&mut self, assignment: Option<(VariableName, Action)>) {
+        assert!(!self.current_define.is_some());
+        self.current_define = Some(DefineState {
+            assignment,
+            body: Block::empty(),
+            nesting: 1,
+            continued: false,
+        });
+    }
+
     /// Handle a line inside of a define
     pub(crate) fn handle_define_line(
         &mut self,
@@ -130,6 +134,10 @@ impl crate::parsers::ParserState {
                 define.nesting -= 1;
                 if define.nesting == 0 {
                     // If we reach 0 nesting, the body is complete
+                    let (name, action) = match define.assignment {
+                        Some(assignment) => assignment,
+                        None => return Ok(()),
+                    };
                     let value = match parse_ast(define.body.span()) {
                         Ok((_, value)) => value,
                         Err(nom::Err::Failure(e)) | Err(nom::Err::Error(e)) => {
@@ -139,14 +147,14 @@ impl crate::parsers::ParserState {
                             return Err(ParseErrorKind::UnternimatedVariable)
                         }
                     };
-                    let action = match define.action {
+                    let action = match action {
                         Action::Define(parameters) => Action::Define(VariableParameters {
                             unexpanded_value: value,
                             ..parameters
                         }),
                         Action::Append(_) => Action::Append(value),
                     };
-                    assign_global_variable(names, engine, define.var, action);
+                    assign_global_variable(names, engine, name, action);
                     return Ok(());
                 }
             }
@@ -205,6 +213,23 @@ fn evaluate_now(names: &mut NameCache, engine: &mut Engine, value: ast::AstNode)
     ast::preevaluated(value.location(), contents)
 }
 
+/// Check whether a line starts a define, without expanding anything in it
+pub(crate) fn starts_define(mut i: BlockSpan) -> bool {
+    while parse_assignment_operator(i).is_err() {
+        let (rest, word) = match makefile_token(i) {
+            Ok(token) => token,
+            Err(_) => return false,
+        };
+        match word.into_string().to_ascii_lowercase().as_str() {
+            "define" => return true,
+            "export" | "override" | "private" => i = rest,
+            _ => return false,
+        }
+    }
+
+    false
+}
+
 /// Attempt to parse a variable reference in the context of a given database
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
-- 
2.43.0


From c0d386d6c2fbdde94bb9506a6bc5c36b28009acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:54 +0000
Subject: [PATCH 38/39] fix: record a rule before expanding the name of the
 variable that ends it

A line that assigns a variable ends the rule before it. The rule was only
recorded once the name had been expanded, so rules that an $(eval) in the
name defined were overwritten by the one before them.
---
 src/parsers/mod.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 42aac25..c5d937a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -254,31 +254,27 @@ impl ParserState {
             return Ok((i, ()));
         }
 
+        // Anything that reaches this point closes the current rule. This has to
+        // happen before the line is expanded, since the expansion may define rules
+        self.close_rule(names, engine);
+
         run_line_parser!(
             variable::parse_line(line.span(), names, engine),
             |variable_action| {
                 debug!("Matched variable action {:?}", variable_action);
-                // Successful variable assignments close the current rule
-                self.close_rule(names, engine);
 
                 self.handle_global_variable_action(names, engine, variable_action)
             }
         );
 
-        run_line_parser!(directives::parse_line(line.span()), |directive_action| {
-            self.close_rule(names, engine);
-            self.handle_directive_action(names, engine, directive_action)
-        });
+        run_line_parser!(directives::parse_line(line.span()), |directive_action| self
+            .handle_directive_action(names, engine, directive_action));
 
         if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
 
-        // Anything that reaches this point closes the current rule. This has to
-        // happen before the line is expanded, since the expansion may define rules
-        self.close_rule(names, engine);
-
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
             |target_action| self.handle_target_action(engine, target_action)
-- 
2.43.0


From d3269a343b1bb495cb27bc274f23daa69bd2b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 39/39] fix: a variable may be named like a conditional keyword

---
 src/parsers/conditional/mod.rs | 6 ++++++
 src/parsers/variable/mod.rs    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 672d1a1..d28dae3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -6,6 +6,7 @@ use super::{at_word_end, error_out, makefile_whitespace};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::variable::starts_assignment;
 use crate::ParseErrorKind;
 use nom::{Context, Err, ErrorKind, IResult};
 
@@ -156,6 +157,7 @@ fn parse_line_internal<'a>(
         Else,
         EndIf,
     }
+    let (line, _) = makefile_whitespace(input)?;
     let (input, tag) = preceded!(
         input,
         makefile_whitespace,
@@ -186,6 +188,10 @@ fn parse_line_internal<'a>(
     if !starts_arguments && !at_word_end(input) {
         return error_out(input, ParseErrorKind::ConditionalExpected);
     }
+    // Nor is the assignment of a variable that is named like a keyword
+    if !starts_arguments && starts_assignment(line) {
+        return error_out(input, ParseErrorKind::ConditionalExpected);
+    }
     let (input, _) = makefile_whitespace(input)?;
 
     debug!("Tag is {:?}", tag);
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 5997dda..69957e6 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -372,6 +372,11 @@ pub(crate) fn parse_line<'a>(
     }
 }
 
+/// Whether a span starts with a variable name and an assignment operator
+pub(super) fn starts_assignment(i: BlockSpan) -> bool {
+    parse_assignment_operator(i).is_ok()
+}
+
 /// Parse a span, returning the captured variable name and the type of
 /// assignment on success. The remaining content will start directly after the
 /// equals operator
-- 
2.43.0

