From 5ecde0789a74ba3b85b42c52dd71978c59166c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:39 +0000
Subject: [PATCH 01/20] fix: read the context of MO messages from before the
 EOT byte

MO files store `msgctxt` + EOT + `msgid`, which is what the writer emits.
The reader took the part before EOT as the msgid and the part after it as
the context, so both fields came back swapped.
---
 rust/src/moparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..72253bf 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -52,7 +52,7 @@ fn maybe_extract_msgctxt_from_msgid(
     let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
 
     if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
+        (msgid_tokens[1].into(), Some(msgid_tokens[0].to_string()))
     } else {
         (msgid.into(), None)
     }
-- 
2.43.0


From eb9160b186e7764e28541526dad8ffdb3cc42b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:39 +0000
Subject: [PATCH 02/20] fix: merge matching entries in place when merging PO
 files

`POFile::merge` merged matching entries into a clone that was dropped, so
the file kept its old content. Entries were also matched by msgid alone
when they had no context, mixing up messages that only differ in context.
---
 rust/src/file/pofile.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..8b6e1ed 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -448,16 +448,13 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<&mut POEntry> =
+                self.entries.iter_mut().find(|e| {
+                    e.msgid == other_entry.msgid
+                        && e.msgctxt == other_entry.msgctxt
+                });
 
-            if let Some(e) = entry {
-                let mut entry = e;
+            if let Some(entry) = entry {
                 entry.merge(other_entry.clone());
             } else {
                 let mut entry = POEntry::new(0);
@@ -468,7 +465,10 @@ impl Merge for POFile {
 
         let self_entries: &mut Vec<POEntry> = self.entries.as_mut();
         for entry in self_entries {
-            if other.find_by_msgid(&entry.msgid).is_none() {
+            let found = other.entries.iter().any(|e| {
+                e.msgid == entry.msgid && e.msgctxt == entry.msgctxt
+            });
+            if !found {
                 entry.obsolete = true;
             }
         }
-- 
2.43.0


From f1a89c8cc4c0e61cc9c5fc918fd49c81b9b5da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:39 +0000
Subject: [PATCH 03/20] fix: keep every occurrence when they do not fit in one
 line

The occurrence that overflowed a line was dropped and the ones already
written were repeated in the following lines.
---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..89b331f 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -151,11 +151,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From 6aa70c723def1e2b56e9277bb7c1ac70d3cb4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:39 +0000
Subject: [PATCH 04/20] fix: write the previous plural message with its own
 keyword

`previous_msgid_plural` was written as `#| msgid` followed by a blank
line, so it replaced the previous msgid when the file was read back.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 89b331f..5e90e32 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -209,7 +209,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -217,7 +217,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 93491f8b0d59c7a2c9794a0296954cd386e21cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:39 +0000
Subject: [PATCH 05/20] fix: prefix every line of wrapped comments

Comments longer than the wrap width were written without their comment
marker, producing PO files that can not be parsed. Wrap widths lower than
2 also overflowed.
---
 rust/src/entry/poentry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 5e90e32..4500027 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,12 +96,17 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for wrapped in wrap(line, wrapwidth.saturating_sub(2))
+                {
+                    target.push_str(prefix);
+                    target.push_str(&wrapped);
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From a655aea34422cd63b52c408ac442e24fc4b7fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:21 +0000
Subject: [PATCH 06/20] fix: keep trailing whitespace of msgstr when writing
 entries

The msgstr was trimmed before being written, so translations ending in
spaces or newlines lost them when the file was saved and read again.
---
 rust/src/entry/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..8f7e712 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -73,14 +73,8 @@ fn default_mo_entry_msgstr_formatter(
     delflag: &str,
     wrapwidth: usize,
 ) -> String {
-    POStringField::new(
-        "msgstr",
-        delflag,
-        msgstr.trim_end(),
-        "",
-        wrapwidth,
-    )
-    .to_string()
+    POStringField::new("msgstr", delflag, msgstr, "", wrapwidth)
+        .to_string()
 }
 
 fn mo_entry_to_string_with_msgstr_formatter(
-- 
2.43.0


From bf6b66a5b515130e1a487fec52b1de421cec385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:26 +0000
Subject: [PATCH 07/20] fix: do not wrap string fields in the middle of an
 escape sequence

Unicode line breaking allows a break between two backslashes, so an
escaped backslash could be written in two lines. The resulting file was
rejected by the parser when the next line contained an escaped quote.
---
 rust/src/entry/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 8f7e712..1215a30 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -238,6 +238,15 @@ impl<'a> POStringField<'a> {
     }
 }
 
+/// Whether an escaped text ends in the middle of an escape sequence
+fn ends_in_open_escape(text: &str) -> bool {
+    let mut open = false;
+    for c in text.chars() {
+        open = c == '\\' && !open;
+    }
+    open
+}
+
 impl<'a> fmt::Display for POStringField<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let mut lines = vec!["".to_string()];
@@ -254,8 +263,15 @@ impl<'a> fmt::Display for POStringField<'a> {
                 + UnicodeWidthStr::width(self.fieldname)
                 + 1;
         if real_width > self.wrapwidth {
-            let new_lines = wrap(&escaped_value, self.wrapwidth);
-            lines.extend(new_lines);
+            for line in wrap(&escaped_value, self.wrapwidth) {
+                match lines.last_mut() {
+                    // do not split an escape sequence
+                    Some(last) if ends_in_open_escape(last) => {
+                        last.push_str(&line)
+                    }
+                    _ => lines.push(line),
+                }
+            }
         } else {
             lines = vec![escaped_value.into_owned()];
         }
-- 
2.43.0


From dbd9fa144a2bc8411bd07238c834f47d453537f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:32 +0000
Subject: [PATCH 08/20] fix: use the wrap width of the file options when
 writing files

The `wrapwidth` option was ignored, entries were always written with a
width of 78.
---
 rust/src/file/mofile.rs |  5 ++++-
 rust/src/file/pofile.rs | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 8b6e1ed..a293f2c 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -400,10 +400,18 @@ impl fmt::Display for POFile {
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(
+                        self.options.wrapwidth,
+                    ),
+                );
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(
+                        self.options.wrapwidth,
+                    ),
+                );
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From 9809a86121bdd9897639f90f36180f06c897dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:37 +0000
Subject: [PATCH 09/20] fix: only mark the metadata as fuzzy when it has the
 fuzzy flag

Any other flag in the header entry was taken as fuzzy.
---
 rust/src/poparser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..4bca06d 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -216,8 +216,7 @@ impl POFileParser {
         let metadata_entry = self.file.find_by_msgid("");
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-- 
2.43.0


From eda46248cabc22ada01f2faf09dccae3b36aaae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:43 +0000
Subject: [PATCH 10/20] fix: do not take messages with context or plural as the
 metadata

A message with an empty msgid and a context was removed from the file and
parsed as metadata. If it had a plural form the parser panicked because
there is no msgstr.
---
 rust/src/poparser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 4bca06d..45786fc 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -213,14 +213,23 @@ impl POFileParser {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| {
+                e.msgid.is_empty()
+                    && e.msgctxt.is_none()
+                    && e.msgid_plural.is_none()
+            })
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
             self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From fb8245d0e2a4d9e1e8fc8e47f34d8ac8d720db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:49 +0000
Subject: [PATCH 11/20] fix: keep the last message of a file when its msgid is
 empty

A message with context, empty msgid and empty msgstr was kept anywhere in
the file but dropped if it was the last one.
---
 rust/src/poparser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 45786fc..4f1b0e6 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -202,7 +202,9 @@ impl POFileParser {
             self.parse_line(&line)?;
         }
 
-        if self.current_entry.msgid.is_empty() {
+        if self.current_entry.msgid.is_empty()
+            && self.current_entry.msgctxt.is_none()
+        {
             // Adding header entry
             if let Some(msgstr) = &self.current_entry.msgstr {
                 if !msgstr.is_empty() {
-- 
2.43.0


From 8d0ec03ecbc64201a1819824db82506dcb903e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 12/20] fix: return a syntax error when a line is not expected

A keyword out of order, like a msgstr without msgid, made the parser panic.
---
 rust/src/poparser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 4f1b0e6..e49d02a 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -154,7 +154,19 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    });
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
-- 
2.43.0


From 63bd023fc4713d0fc0ae07ad7563d9e69ae2083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:31 +0000
Subject: [PATCH 13/20] fix: return a syntax error for strings without opening
 quote

Lines like `msgid "` or `msgid e"` made the parser panic or were accepted
losing their first character.
---
 rust/src/poparser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e49d02a..3ad86b1 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -758,14 +758,17 @@ fn maybe_raise_unescaped_double_quote_found_error(
     // Check if last character is not a double quote
     // to prevent slicing out of bounds
     let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2
+        || !text.starts_with('"')
+        || text_chars.last().unwrap_or('\0') != '"'
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
-- 
2.43.0


From c2e60e88f51a4e5d5df80d918460081c353f0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:37 +0000
Subject: [PATCH 14/20] fix: return a syntax error for malformed msgstr[N]
 lines

A value without quotes made the parser panic, and a huge index made it
overflow or exhaust the memory. The values are now checked like the ones
of the other string fields and the index is limited.
---
 rust/src/poparser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 3ad86b1..18c4c76 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -53,6 +53,9 @@ lazy_static! {
     };
 }
 
+/// Maximum index accepted in `msgstr[N]` lines
+const MAX_MSGSTR_PLURAL_INDEX: usize = 255;
+
 /// Function to transition from a state to another in the parser
 type TransitionFn =
     dyn Fn(&mut POFileParser) -> Result<(), SyntaxError>;
@@ -348,10 +351,10 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_MSGSTR_PLURAL_INDEX => {
                     self.msgstr_index = index;
                 }
-                Err(_) => {
+                _ => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
                             &self.file.options.path_or_content,
@@ -370,6 +373,15 @@ impl POFileParser {
                 }
             };
 
+            let value_start =
+                line.find(']').map_or(line.len(), |i| i + 1);
+            maybe_raise_unescaped_double_quote_found_error(
+                line[value_start..].trim_start(),
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                value_start + 2,
+            )?;
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
-- 
2.43.0


From 7666199718fa61d315561a09b6560ec919c88f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:42 +0000
Subject: [PATCH 15/20] fix: read previous messages without their comment
 marker

Continuation lines of previous messages included the `| "` of the marker
in the value. Values without quotes made the parser panic and additional
spaces before the keyword shifted the value.
---
 rust/src/poparser.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 18c4c76..35f5f6f 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -416,8 +416,17 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
-            if tokens[1].starts_with('"') {
+            let previous = line[tokens[0].len()..].trim_start();
+            if previous.starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    previous,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    tokens[0].len() + 2,
+                )?;
+                self.current_token = previous.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -450,10 +459,15 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let value = previous[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                tokens[0].len() + tokens[1].len() + 3,
+            )?;
+            self.current_token = value.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From 5325828c46c21bfbc071432bc237cece2cd3ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:48 +0000
Subject: [PATCH 16/20] fix: parse the content of PO files passed as bytes

`pofile` documents that it accepts bytes but they were ignored, returning
an empty file.
---
 rust/src/file/mod.rs |  2 +-
 rust/src/poparser.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..5c8e7e1 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 35f5f6f..7728a76 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -199,8 +199,16 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(byte_content) => byte_content.clone(),
+            None => self
+                .file
+                .options
+                .path_or_content
+                .clone()
+                .into_bytes(),
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From afe581627b6680f587b7f07402c3b4c9cb7c7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:54 +0000
Subject: [PATCH 17/20] fix: return an error when a PO file is not valid UTF-8

The first line that could not be decoded was taken as the end of the file,
silently dropping the rest of the messages.
---
 rust/src/poparser.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 7728a76..b5a60ce 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -79,14 +79,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = std::io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -218,11 +214,26 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
-        self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
-
+        let mut first_line = true;
         for line in handler.by_ref() {
-            self.parse_line(&line)?;
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    return Err(SyntaxError::BasicCustom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: e.to_string(),
+                    })
+                }
+            };
+            if first_line {
+                self.parse_line(maybe_lstrip_utf8_bom(&line))?;
+                first_line = false;
+            } else {
+                self.parse_line(&line)?;
+            }
         }
 
         if self.current_entry.msgid.is_empty()
-- 
2.43.0


From ebb6b365e6cd8bba8fb43d65d0ddd62e7f5f1f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 18/20] fix: return an error when the MO file to read does not
 exist

Passing a path that is not a file made `mofile` panic.
---
 rust/src/moparser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 72253bf..e8706dd 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,7 +70,7 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
@@ -80,7 +80,7 @@ impl MOFileParser<'_> {
                 File::open(&file.options.path_or_content).unwrap(),
             ),
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 47f815a2eaba1d80e338f665ee372d5010ecab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:27 +0000
Subject: [PATCH 19/20] fix: return an error when a MO string is out of the
 file

Truncated MO files were read as messages filled with NUL characters, and
a wrong length in the tables could exhaust the memory.
---
 rust/src/moparser.rs | 55 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index e8706dd..08deddd 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -117,8 +117,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -127,6 +126,33 @@ impl MOFileParser<'_> {
         Ok((self.freader)(buffer))
     }
 
+    fn parse_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+    ) -> Result<Vec<u8>, IOError> {
+        let mut buffer: Vec<u8> = vec![];
+        let read = match self
+            .fhandle
+            .seek(SeekFrom::Start(offset as u64))
+        {
+            Ok(_) => self
+                .fhandle
+                .by_ref()
+                .take(length as u64)
+                .read_to_end(&mut buffer)
+                .unwrap_or(0),
+            Err(_e) => 0,
+        };
+        if read != length as usize {
+            return Err(IOError::CorruptedMOData {
+                context: format!("parsing {} string", context),
+            });
+        }
+        Ok(buffer)
+    }
+
     fn parse_magic_number(&mut self) -> Result<(), IOError> {
         match self.parse_4_bytes() {
             Ok(magic_number) => {
@@ -264,25 +290,25 @@ impl MOFileParser<'_> {
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_string(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -323,6 +349,7 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 88df9ee00ad20977a496a7355ae4c8bb97ee2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:19 +0000
Subject: [PATCH 20/20] fix: write metadata keys always in the same order

Keys that the natural order considers equal, like the ones that only differ
in spaces, were written in the iteration order of the hash map.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 5c8e7e1..1d9ec25 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0

