From d45ff0a85254442da4ce18b5e5e9771bb896ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 01/13] fix: report write errors that surface when the output
 file buffer is flushed

---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..dada348 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping a BufWriter discards write errors, so flush explicitly
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 3c32663fa9626eccb90ec3254f8b6dea42b2a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 02/13] fix: do not read a bracket inside a field's value as an
 array header

---
 src/decode/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..202ea27 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -57,6 +57,12 @@ pub fn parse_array_header_line(
         return Ok(None);
     };
 
+    // An unquoted key ends at its first colon, so a bracket after that colon
+    // belongs to the value (`key: "x[2]: y"`) and is not an array header.
+    if !trimmed.starts_with(DOUBLE_QUOTE) && content[..bracket_start].contains(COLON) {
+        return Ok(None);
+    }
+
     let Some(bracket_end) = content[bracket_start..].find(CLOSE_BRACKET) else {
         return Ok(None);
     };
-- 
2.43.0


From f58b45b6967c8ddd99abb83ea468715de31baa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 03/13] fix: accept a closing brace inside a quoted tabular
 field name

---
 src/decode/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 202ea27..59e7ac5 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -78,9 +78,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -120,9 +119,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_unquoted_char(content, CLOSE_BRACE, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
-- 
2.43.0


From 6742170050d51d33fe20f5b233004d7a4fbbcb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 04/13] fix: count a bare list marker as an extra list item in
 strict mode

---
 src/decode/validation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..301c193 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -1,7 +1,7 @@
 use crate::decode::parser::ArrayHeaderInfo;
 use crate::decode::scanner::{BlankLineInfo, Depth, ParsedLine};
 use crate::error::{Result, ToonError};
-use crate::shared::constants::{COLON, LIST_ITEM_PREFIX};
+use crate::shared::constants::{COLON, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_unquoted_char;
 
 /// Assert the expected count in strict mode.
@@ -37,7 +37,7 @@ pub fn validate_no_extra_list_items(
     if strict
         && let Some(line) = next_line
         && line.depth == item_depth
-        && line.content.starts_with(LIST_ITEM_PREFIX)
+        && (line.content.starts_with(LIST_ITEM_PREFIX) || line.content == LIST_ITEM_MARKER)
     {
         return Err(ToonError::message(format!(
             "Expected {expected_count} list array items, but found more"
-- 
2.43.0


From dcee3cd46b1c11344f15821c982c84e5e791cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 05/13] fix: reject malformed event streams instead of printing
 invalid JSON

---
 src/cli/json_stream.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..abdcf62 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -17,7 +17,8 @@ enum JsonContext {
 /// # Errors
 ///
 /// Returns an error if the event stream is malformed (mismatched start/end
-/// events or primitives without keys in an object).
+/// events, keys without values or values without keys in an object, or anything
+/// other than exactly one root value).
 #[allow(clippy::too_many_lines)]
 pub fn json_stream_from_events(
     events: impl IntoIterator<Item = JsonStreamEvent>,
@@ -25,9 +26,34 @@ pub fn json_stream_from_events(
 ) -> Result<Vec<String>> {
     let mut stack: Vec<JsonContext> = Vec::new();
     let mut depth = 0usize;
+    let mut has_root = false;
     let mut out = Vec::new();
 
     for event in events {
+        // Every value is the document root, an array item, or the value of a key
+        if matches!(
+            event,
+            JsonStreamEvent::StartObject
+                | JsonStreamEvent::StartArray { .. }
+                | JsonStreamEvent::Primitive { .. }
+        ) {
+            match stack.last() {
+                None if has_root => {
+                    return Err(ToonError::message("Event stream has more than one root"));
+                }
+                None => has_root = true,
+                Some(JsonContext::Object {
+                    expect_value: false,
+                    ..
+                }) if !matches!(event, JsonStreamEvent::Primitive { .. }) => {
+                    return Err(ToonError::message(
+                        "Container event in object without preceding key",
+                    ));
+                }
+                Some(_) => {}
+            }
+        }
+
         let parent = stack.last_mut();
         match event {
             JsonStreamEvent::StartObject => {
@@ -57,8 +83,11 @@ pub fn json_stream_from_events(
                 let Some(context) = stack.pop() else {
                     return Err(ToonError::message("Mismatched endObject event"));
                 };
-                if !matches!(context, JsonContext::Object { .. }) {
+                let JsonContext::Object { expect_value, .. } = context else {
                     return Err(ToonError::message("Mismatched endObject event"));
+                };
+                if expect_value {
+                    return Err(ToonError::message("Key event without a value"));
                 }
                 depth = depth.saturating_sub(1);
                 if indent > 0
@@ -145,6 +174,9 @@ pub fn json_stream_from_events(
                 else {
                     return Err(ToonError::message("Key event outside of object context"));
                 };
+                if *expect_value {
+                    return Err(ToonError::message("Key event without a value"));
+                }
 
                 if *needs_comma {
                     out.push(",".to_string());
@@ -203,6 +235,9 @@ pub fn json_stream_from_events(
             "Incomplete event stream: unclosed objects or arrays",
         ));
     }
+    if !has_root {
+        return Err(ToonError::message("Incomplete event stream: no root value"));
+    }
 
     Ok(out)
 }
-- 
2.43.0


From 7f011a690ea06ae49a70abad7383ef96da16173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 06/13] fix: reject event streams that drop a key or replace
 the root value

---
 src/decode/event_builder.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decode/event_builder.rs b/src/decode/event_builder.rs
index 697d5e2..6c55b12 100644
--- a/src/decode/event_builder.rs
+++ b/src/decode/event_builder.rs
@@ -70,6 +70,12 @@ pub fn node_to_json(value: NodeValue) -> JsonValue {
 
 #[allow(clippy::too_many_lines)]
 fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
+    if state.stack.is_empty() && state.root.is_some() {
+        return Err(ToonError::event_stream(
+            "Unexpected event after the root value",
+        ));
+    }
+
     match event {
         JsonStreamEvent::StartObject => {
             state.stack.push(BuildContext::Object {
@@ -84,12 +90,15 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
             };
             let BuildContext::Object {
                 entries,
+                current_key,
                 quoted_keys,
-                ..
             } = context
             else {
                 return Err(ToonError::mismatched_end("Object", "Array"));
             };
+            if current_key.is_some() {
+                return Err(ToonError::event_stream("Key event without a value"));
+            }
             let node = NodeValue::Object(ObjectNode {
                 entries,
                 quoted_keys,
@@ -161,6 +170,9 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
                     "outside of object context",
                 ));
             };
+            if current_key.is_some() {
+                return Err(ToonError::event_stream("Key event without a value"));
+            }
             *current_key = Some(key.clone());
             if was_quoted {
                 quoted_keys.insert(key);
-- 
2.43.0


From 4c33cc7ee93880f491e7defd6be404fddca89379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 07/13] fix: make AsyncDecodeStream yield the same events as
 the sync decoder

---
 src/decode/async_decode.rs | 105 +++++++++++++++----------------------
 src/decode/decoders.rs     |  24 +++++++--
 2 files changed, 63 insertions(+), 66 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..08f4262 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -29,7 +29,8 @@ use crate::decode::parser::{
     parse_primitive_token,
 };
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    Depth, ParsedLine, StreamingLineCursor, StreamingScanState, create_scan_state,
+    parse_line_incremental,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -88,8 +89,6 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     lines_exhausted: bool,
     /// Error encountered during processing
     error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -106,7 +105,6 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             line_buffer: Vec::new(),
             lines_exhausted: false,
             error: None,
-            last_depth: None,
         }
     }
 
@@ -187,20 +185,19 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
         // Check if it's a key-value line (object)
         if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
             self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
+            if self.state == DecoderState::Initial {
+                self.state = DecoderState::SimpleObject { base_depth: 0 };
+                self.context_stack.push(0);
+                self.event_queue.push_front(JsonStreamEvent::StartObject);
+            }
             return Ok(self.event_queue.pop_front());
         }
 
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
+        // A primitive, provided no other line follows
+        self.state = DecoderState::ArrayMode;
+        self.line_buffer.push(line);
+        Ok(None)
     }
 
     /// Process a line in simple object mode
@@ -209,38 +206,15 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         line: ParsedLine,
         base_depth: Depth,
     ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
-                }
-            }
-        }
-
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
+        // A deeper line here belongs to no field: the sync decoder stops at it
+        if line.depth != base_depth {
             self.state = DecoderState::ArrayMode;
             self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
+            return Ok(None);
         }
 
         // Process key-value line
         self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
 
         Ok(self.event_queue.pop_front())
     }
@@ -257,6 +231,15 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             return Ok(());
         }
 
+        // `key[N]...:` is an array, inline or not
+        if parse_array_header_line(content, DEFAULT_DELIMITER)?
+            .is_some_and(|parsed| parsed.header.key.is_some())
+        {
+            self.state = DecoderState::ArrayMode;
+            self.line_buffer.push(line.clone());
+            return Ok(());
+        }
+
         // Parse key-value
         let (key, end, is_quoted) = parse_key_token(content, 0)?;
         let rest = content[end..].trim();
@@ -271,13 +254,13 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         }
 
         // Key with inline value - can emit incrementally
+        let value = parse_primitive_token(rest)?;
         self.event_queue.push_back(JsonStreamEvent::Key {
             key,
             was_quoted: is_quoted,
         });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
+        self.event_queue
+            .push_back(JsonStreamEvent::Primitive { value });
 
         Ok(())
     }
@@ -329,31 +312,27 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
     /// Fall back to batch decoding for complex structures
     fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
-        }
-
         // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
+        let context = decoder_impl::DecoderContext {
+            indent: self.indent_size(),
+            strict: self.strict(),
+        };
+        let mut cursor = StreamingLineCursor::new(
+            std::mem::take(&mut self.line_buffer),
+            std::mem::take(&mut self.scan_state.blank_lines),
+        );
 
-        let events = decoder_impl::decode_stream_sync(
-            raw_lines,
-            Some(DecodeStreamOptions {
-                indent: self.options.indent,
-                strict: self.options.strict,
-            }),
-        )?;
+        let events = if self.context_stack.is_empty() {
+            decoder_impl::decode_document_sync(cursor, context)?
+        } else {
+            // The root object is already open and its first fields are out
+            let mut events = Vec::new();
+            decoder_impl::decode_root_fields_sync(&mut events, &mut cursor, context)?;
+            events
+        };
 
         // Queue all events
         self.event_queue.extend(events);
-        self.line_buffer.clear();
         self.context_stack.clear();
         self.state = DecoderState::Finished;
 
diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..c29cc84 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -42,8 +42,17 @@ pub fn decode_stream_sync(
 
     let mut scan_state = create_scan_state();
     let lines = parse_lines_sync(source, context.indent, context.strict, &mut scan_state)?;
-    let mut cursor = StreamingLineCursor::new(lines, scan_state.blank_lines);
+    decode_document_sync(
+        StreamingLineCursor::new(lines, scan_state.blank_lines),
+        context,
+    )
+}
 
+/// Decode a whole scanned document.
+pub(crate) fn decode_document_sync(
+    mut cursor: StreamingLineCursor,
+    context: DecoderContext,
+) -> Result<Vec<JsonStreamEvent>> {
     let mut events = Vec::new();
 
     let first = cursor.peek_sync().cloned();
@@ -72,7 +81,16 @@ pub fn decode_stream_sync(
 
     events.push(JsonStreamEvent::StartObject);
     decode_key_value_sync(&mut events, &first.content, &mut cursor, 0, context)?;
+    decode_root_fields_sync(&mut events, &mut cursor, context)?;
+    Ok(events)
+}
 
+/// Decode the rest of a root object whose `StartObject` is already out.
+pub(crate) fn decode_root_fields_sync(
+    events: &mut Vec<JsonStreamEvent>,
+    cursor: &mut StreamingLineCursor,
+    context: DecoderContext,
+) -> Result<()> {
     while !cursor.at_end_sync() {
         let line = cursor.peek_sync().cloned();
         let Some(line) = line else {
@@ -82,11 +100,11 @@ pub fn decode_stream_sync(
             break;
         }
         cursor.advance_sync();
-        decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
+        decode_key_value_sync(events, &line.content, cursor, 0, context)?;
     }
 
     events.push(JsonStreamEvent::EndObject);
-    Ok(events)
+    Ok(())
 }
 
 fn decode_key_value_sync(
-- 
2.43.0


From 912f678fcc92a65b92f3303d013ff9b51f5d98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 08/13] fix: end AsyncDecodeStream after its first error

---
 src/decode/async_decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 08f4262..a814ea0 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -355,7 +355,12 @@ impl<I: Iterator<Item = String> + Unpin> Stream for AsyncDecodeStream<I> {
                     }
                     // Not done yet, continue processing
                 }
-                Err(e) => return Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    // The stream ends after its first error
+                    self.state = DecoderState::Finished;
+                    self.event_queue.clear();
+                    return Poll::Ready(Some(Err(e)));
+                }
             }
         }
     }
-- 
2.43.0


From 5ed575b3f3616c5dd7fc8bdf12c2ced3e4d523d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 09/13] fix: reject an array length too large to represent
 instead of reading a key

---
 src/decode/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 59e7ac5..5b94cfe 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -180,9 +180,14 @@ pub fn parse_bracket_segment(seg: &str, default_delimiter: char) -> Result<(usiz
         content.pop();
     }
 
-    let length = content
-        .parse::<usize>()
-        .map_err(|_| ToonError::message(format!("Invalid array length: {seg}")))?;
+    let length = match content.parse::<usize>() {
+        Ok(length) => length,
+        // Too large to represent is still a length, and one over the cap.
+        Err(err) if *err.kind() == std::num::IntErrorKind::PosOverflow => usize::MAX,
+        Err(_) => {
+            return Err(ToonError::message(format!("Invalid array length: {seg}")));
+        }
+    };
 
     Ok((length, delimiter))
 }
-- 
2.43.0


From 690ff713b4c0e176e1e82d436f65f7e494c3a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 10/13] fix: refuse documents nested too deeply instead of
 overflowing the stack

---
 src/decode/scanner.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decode/scanner.rs b/src/decode/scanner.rs
index 8550e29..ebad789 100644
--- a/src/decode/scanner.rs
+++ b/src/decode/scanner.rs
@@ -3,6 +3,10 @@ use crate::shared::constants::{SPACE, TAB};
 
 pub type Depth = usize;
 
+/// Maximum nesting depth of a document. The decoder calls itself once or more
+/// per level, so deeper documents could exhaust the stack.
+pub const MAX_NESTING_DEPTH: Depth = 1024;
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct ParsedLine {
     pub raw: String,
@@ -38,7 +42,7 @@ pub const fn create_scan_state() -> StreamingScanState {
 /// # Errors
 ///
 /// Returns an error if strict mode rules are violated (tabs in indentation or
-/// indentation not a multiple of the indent size).
+/// indentation not a multiple of the indent size) or the line is nested too deeply.
 pub fn parse_line_incremental(
     raw: &str,
     state: &mut StreamingScanState,
@@ -70,6 +74,13 @@ pub fn parse_line_incremental(
     let content = content_slice.to_string();
     let depth = compute_depth_from_indent(indent, indent_size);
 
+    if depth > MAX_NESTING_DEPTH {
+        return Err(ToonError::validation(
+            line_number,
+            format!("Nesting exceeds maximum depth of {MAX_NESTING_DEPTH}"),
+        ));
+    }
+
     if strict {
         let mut whitespace_end = 0usize;
         while whitespace_end < raw_bytes.len()
-- 
2.43.0


From 187c81a629dc625e0841c80fbb5db2736847139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 11/13] fix: strict decoding refuses lines it would otherwise
 ignore

---
 src/decode/decoders.rs   |  4 +++-
 src/decode/validation.rs | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index c29cc84..c408f18 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -8,7 +8,7 @@ use crate::decode::scanner::{
 };
 use crate::decode::validation::{
     assert_expected_count, validate_no_blank_lines_in_range, validate_no_extra_list_items,
-    validate_no_extra_tabular_rows,
+    validate_no_extra_tabular_rows, validate_no_lines_left,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -67,6 +67,7 @@ pub(crate) fn decode_document_sync(
     {
         cursor.advance_sync();
         decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        validate_no_lines_left(cursor.peek_sync(), context.strict)?;
         return Ok(events);
     }
 
@@ -102,6 +103,7 @@ pub(crate) fn decode_root_fields_sync(
         cursor.advance_sync();
         decode_key_value_sync(events, &line.content, cursor, 0, context)?;
     }
+    validate_no_lines_left(cursor.peek_sync(), context.strict)?;
 
     events.push(JsonStreamEvent::EndObject);
     Ok(())
diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 301c193..6e02703 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -100,6 +100,21 @@ pub fn validate_no_blank_lines_in_range(
     Ok(())
 }
 
+/// Validate that every line of the document has been decoded.
+///
+/// # Errors
+///
+/// Returns an error in strict mode when a line belongs to no field or item.
+pub fn validate_no_lines_left(next_line: Option<&ParsedLine>, strict: bool) -> Result<()> {
+    if strict && let Some(line) = next_line {
+        return Err(ToonError::validation(
+            line.line_number,
+            "Unexpected line: it belongs to no field or item before it",
+        ));
+    }
+    Ok(())
+}
+
 const fn is_data_row(content: &str, delimiter: char) -> bool {
     // Find first unquoted colon and delimiter to properly handle quoted strings
     let colon_pos = find_unquoted_char(content, COLON, 0);
-- 
2.43.0


From 5e19430f8df9f1b7f0f4e9f58bbb5ecc63fcc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 12/13] fix: search blank lines by bisection instead of walking
 all of them for every array

---
 src/decode/validation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 6e02703..ef5bd7f 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -87,9 +87,11 @@ pub fn validate_no_blank_lines_in_range(
         return Ok(());
     }
 
+    // Blank lines are recorded in order, so the search need not walk all of them for every array
+    let after_start = blank_lines.partition_point(|blank| blank.line_number <= start_line);
     if let Some(first_blank) = blank_lines
-        .iter()
-        .find(|blank| blank.line_number > start_line && blank.line_number < end_line)
+        .get(after_start)
+        .filter(|blank| blank.line_number < end_line)
     {
         return Err(ToonError::message(format!(
             "Line {}: Blank lines inside {context} are not allowed in strict mode",
-- 
2.43.0


From 5369b9a203418fdf5dc00d4cecd56428f7a57d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 13/13] fix: merge expanded paths in place instead of copying
 what is there

---
 src/decode/expand.rs | 70 ++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/src/decode/expand.rs b/src/decode/expand.rs
index aac57c0..2c77a72 100644
--- a/src/decode/expand.rs
+++ b/src/decode/expand.rs
@@ -139,21 +139,7 @@ fn insert_literal_entry(
         return Err(depth_error());
     }
     if let Some(index) = find_entry_index(entries, &key) {
-        let existing = entries[index].1.clone();
-        if can_merge(&existing, &value) {
-            let mut existing_obj = extract_object(existing)?;
-            let source_obj = extract_object(value)?;
-            merge_objects(&mut existing_obj, source_obj, strict, depth + 1)?;
-            entries[index].1 = NodeValue::Object(existing_obj);
-        } else if strict {
-            return Err(ToonError::message(format!(
-                "Path expansion conflict at key \"{key}\": cannot merge {left} with {right}",
-                left = node_type_name(&existing),
-                right = node_type_name(&value)
-            )));
-        } else {
-            entries[index].1 = value;
-        }
+        merge_values(&key, &mut entries[index].1, value, strict, depth)?;
     } else {
         entries.push((key, value));
     }
@@ -161,6 +147,30 @@ fn insert_literal_entry(
     Ok(())
 }
 
+/// Merge a value into an existing one in place, without copying what is there.
+fn merge_values(
+    key: &str,
+    existing: &mut NodeValue,
+    value: NodeValue,
+    strict: bool,
+    depth: usize,
+) -> Result<()> {
+    match (existing, value) {
+        (NodeValue::Object(target), NodeValue::Object(source)) => {
+            merge_objects(target, source, strict, depth + 1)
+        }
+        (existing, value) if strict => Err(ToonError::message(format!(
+            "Path expansion conflict at key \"{key}\": cannot merge {left} with {right}",
+            left = node_type_name(existing),
+            right = node_type_name(&value)
+        ))),
+        (existing, value) => {
+            *existing = value;
+            Ok(())
+        }
+    }
+}
+
 fn merge_objects(
     target: &mut ObjectNode,
     source: ObjectNode,
@@ -172,21 +182,7 @@ fn merge_objects(
     }
     for (key, value) in source.entries {
         if let Some(index) = find_entry_index(&target.entries, &key) {
-            let existing = target.entries[index].1.clone();
-            if can_merge(&existing, &value) {
-                let mut existing_obj = extract_object(existing)?;
-                let source_obj = extract_object(value)?;
-                merge_objects(&mut existing_obj, source_obj, strict, depth + 1)?;
-                target.entries[index].1 = NodeValue::Object(existing_obj);
-            } else if strict {
-                return Err(ToonError::message(format!(
-                    "Path expansion conflict at key \"{key}\": cannot merge {left} with {right}",
-                    left = node_type_name(&existing),
-                    right = node_type_name(&value)
-                )));
-            } else {
-                target.entries[index].1 = value;
-            }
+            merge_values(&key, &mut target.entries[index].1, value, strict, depth)?;
         } else {
             target.entries.push((key, value));
         }
@@ -198,20 +194,6 @@ fn find_entry_index(entries: &[(String, NodeValue)], key: &str) -> Option<usize>
     entries.iter().position(|(k, _)| k == key)
 }
 
-const fn can_merge(left: &NodeValue, right: &NodeValue) -> bool {
-    matches!((left, right), (NodeValue::Object(_), NodeValue::Object(_)))
-}
-
-fn extract_object(value: NodeValue) -> Result<ObjectNode> {
-    match value {
-        NodeValue::Object(obj) => Ok(obj),
-        other => Err(ToonError::message(format!(
-            "Expected object but found {}",
-            node_type_name(&other)
-        ))),
-    }
-}
-
 const fn node_type_name(value: &NodeValue) -> &'static str {
     match value {
         NodeValue::Primitive(_) => "primitive",
-- 
2.43.0

