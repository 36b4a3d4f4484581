#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe, "hook_needed": None}})
CLI = ["src/cli/mod.rs", "src/cli/conversion.rs", "src/main.rs"]
m = lambda n, w: {"name": n, "where": w}

p("C01", "Exit 0 means the complete, correct document was delivered",
  "When a CLI conversion exits with status 0, its destination (standard output, or the file named by -o) holds exactly the complete conversion of the input followed by one newline, in both directions, with and without --stats, key folding and path expansion. Short writes, interrupted system calls and any other transient behaviour of the operating system never change, reorder, repeat or drop a byte.",
  ["inputs", "fault_sequences", "configurations"],
  "every input document and option set (indent >= 1 for nested data), and every sequence of short writes, EINTR, write errors, full disks and short reads the system may serve",
  "The CLI tests run a few dozen small documents on a healthy file system where every write succeeds in full; none has a write fail, be cut short or cross a buffer boundary.",
  CLI + ["src/encode/encoders.rs", "src/decode/decoders.rs", "src/cli/json_stream.rs", "src/cli/json_stringify.rs"],
  [m("write_lines / write_chunks / write_output", "src/cli/mod.rs"), m("explicit flush of the output buffer", "src/cli/mod.rs")],
  ["exit status", "bytes of the destination after exit"])
p("C02", "An I/O failure is always reported",
  "If the input cannot be opened or read, or the destination cannot be created or fully written, the CLI exits with a nonzero status and prints a diagnostic on standard error, and it never prints the success message. An interrupted call (EINTR) is not a failure: it is retried.",
  ["inputs", "fault_sequences", "configurations"],
  "every system call the conversion makes on its input and destination, and every permanent error (EIO, ENOSPC at any byte, EDQUOT, EPIPE, EAGAIN, EACCES, ENOENT, zero-length write...) at any of them",
  "The tests only cover a missing input file and an unwritable directory; no test makes a read or write fail part-way or at the final flush.",
  CLI + ["src/error.rs"],
  [m("map_err to ToonError::{file_read,file_create,file_write,stdin_read,stdout_write}", "src/cli/mod.rs"), m("exit(1) on Err", "src/main.rs")],
  ["exit status", "standard error"])
p("C03", "At every instant the destination holds a prefix of the document",
  "At every instant of a conversion, and so after the process crashes or is killed at any point, the destination holds either what it held before or a prefix of the complete output document. It never holds bytes that are not in the document, in another order, or left over from the old content behind new content.",
  ["crash_points", "fault_sequences", "inputs"],
  "every point between two system calls (and inside a partial write or at any memory allocation) at which the process may die, for every input and every earlier content of the destination",
  "No test stops the process before it has finished, and none overwrites an existing, longer file and looks at the intermediate states.",
  CLI, [m("output is only written in order, after a truncating create", "src/cli/mod.rs")],
  ["destination bytes after every simulated system call"])
p("C04", "How input bytes are delivered is invisible",
  "The output and exit status of a conversion depend only on the input bytes, not on how the system delivers them: any sequence of short reads (including ones that split a UTF-8 character), interrupted reads, misleading file sizes, or standard input instead of a named file, gives the same result. The whole input is consumed up to end of file.",
  ["fault_sequences", "inputs", "schedules"],
  "every partition of the input into reads, every placement of EINTR, every reported file size, and file versus stdin versus '-'",
  "Tests hand the input over in one piece; pipes that deliver a byte at a time, split characters or report a wrong size never occur in them.",
  CLI, [m("read_to_string on stdin / file", "src/cli/mod.rs")], ["exit status", "destination bytes"])
p("C05", "A rejected conversion leaves the destination untouched",
  "If reading the input fails, or the input is not valid UTF-8, not valid JSON, or is rejected by strict TOON decoding or strict path expansion, or the command line is not accepted, nothing is written to standard output and the file named by -o is neither created, truncated nor modified.",
  ["fault_sequences", "inputs", "configurations"],
  "every rejected input, and every read failure at every offset of an acceptable input, in both directions, with and without -o and an existing destination",
  "The tests look at the error text of a handful of rejected inputs; none checks that an existing destination survives, and none makes a read fail after part of the data arrived.",
  CLI, [m("the destination is opened only after the whole conversion succeeded", "src/cli/mod.rs")],
  ["destination file before and after", "standard output"])
p("C06", "Acknowledged conversions read back",
  "In any history of encode, decode and overwrite commands on one file system, with faults and crashes, a JSON document whose encoding was acknowledged with exit 0 decodes (with the same indentation) to exactly the same JSON value: same structure, key order (objects of a uniform array of flat objects take the key order of its first object), strings, booleans, nulls and finite numbers. A later command that failed or crashed leaves each file it was not told to write unchanged, and the one it was told to write with its old content or a prefix of its new content.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every history of CLI commands over a small set of files, every JSON document, every option set with indent >= 1 (key folding paired with path expansion, for keys without literal dots), and every placement of faults and crashes",
  "Round-trip tests use fixed fixtures and in-process calls; none composes commands through files, with other commands failing or crashing in between.",
  CLI + ["src/encode", "src/decode"],
  [m("canonical encoder and strict decoder are inverse", "src/encode/encoders.rs, src/decode/decoders.rs"), m("quoting rules", "src/shared/validation.rs")],
  ["file contents after each command of the history"])
p("C07", "Conversion is deterministic",
  "The output, diagnostics and exit status of a conversion are a function of its arguments and input alone: they do not depend on the process's random hash seeds, clock, process id, environment variables (other than those that control terminal colours in messages), other files that happen to exist (such as configuration files), the machine, or on what was converted before.",
  ["schedules", "configurations", "inputs"],
  "every value of the random seed, clock and environment handed to the process, every kind of standard stream (pipe, terminal, file), and every content of files it might look for",
  "Each test runs a conversion once; two runs that differ would go unnoticed unless the expected text happened to be the one produced.",
  CLI + ["src/encode", "src/decode/event_builder.rs", "src/decode/expand.rs"],
  [m("insertion-ordered entries, hash sets used for membership only", "src/decode/event_builder.rs, src/encode/encoders.rs")], ["standard output", "standard error", "exit status"])
p("C08", "Conversions make progress and end",
  "Every conversion ends: once the faults stop, it finishes within a number of system calls linear in the size of its input and output, it never retries a permanent error or a zero-length write for ever, and it stops reading at end of file.",
  ["fault_sequences", "inputs"],
  "every fault sequence, in particular errors that persist for ever and writes that make no progress",
  "Tests never see a persistent fault or a zero-progress write, so a retry loop that does not end cannot show.",
  CLI, [m("write_all / read_to_string error propagation", "src/cli/mod.rs")], ["number of simulated system calls", "process exit"])
p("C09", "The CLI touches only its destination and keeps its channels apart",
  "A conversion changes no file other than the one named by -o, never changes its input, opens no file other than its input and its output, and opens nothing for writing unless -o is given. Standard output carries the document and nothing else (nothing at all when -o is given), diagnostics, statistics and success messages go only to standard error, and a standard error that fails or is full never damages the document.",
  ["fault_sequences", "inputs", "configurations"],
  "every conversion, successful, rejected or failed, with any fault on any channel",
  "Tests check that the expected output file exists; none watches what else is opened, written or printed, and none has a failing standard error.",
  CLI, [m("eprintln! for messages, stdout only for the document", "src/cli/mod.rs, src/main.rs")], ["all simulated file-system and stream operations"])
p("C10", "What the command reports is what happened",
  "Success is announced (`Encoded`/`Decoded` with -o, token figures with --stats) only when the conversion succeeds and not before the destination holds the complete document, wherever the process may be killed; the announcement names the actual input and output, the token figures are those of the actual input and output (one token per four visible characters, at least one per word and at least one), and a successful conversion prints nothing else on standard error. When an operation fails, the message is one line that says whether reading, creating or writing failed, on which file or stream, with the system's reason. A rejected document's message names no line outside the document, and for wrong indentation in strict mode exactly the first line that has it; a rejected command line ends with status 2 and names the argument.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "every conversion, undisturbed or with one lasting failure of any call on its input or destination, every point at which it may be killed, every document that must be rejected",
  "The tests match a few fragments of messages for a missing file and a bad option; none compares what is reported with what the system calls did, or when.",
  CLI + ["src/error.rs", "src/cli/args.rs", "src/decode/scanner.rs"],
  [m("eprintln! after the output is written and flushed", "src/cli/mod.rs"), m("ToonError display with operation, path and source", "src/error.rs")],
  ["standard error", "order of writes to standard error and to the destination", "exit status"])
AD = ["src/decode/async_decode.rs", "src/decode/decoders.rs", "src/decode/scanner.rs"]
p("C11", "The async decode stream yields what the sync decoder returns",
  "Polled under any schedule, alone or interleaved with other streams, the async decode stream of a list of lines yields exactly the events the synchronous stream decoder returns for the same lines and options, and ends; when the synchronous decoder rejects the lines, the stream yields an error.",
  ["schedules", "inputs", "configurations"],
  "every document (valid, corrupted or lenient), every strict/indent setting, every poll schedule and interleaving of several streams",
  "Four in-file tests poll the stream over flat two-line objects and the empty document; nested objects, arrays, primitives, blank lines and errors are never streamed.",
  AD, [m("per-line state machine with fallback to the sync decoder", "src/decode/async_decode.rs")], ["Stream::poll_next results"])
p("C12", "The async decode stream ends once and for all",
  "The async decode stream always terminates: after the source is exhausted or the first error is yielded it yields at most what is already decoded (nothing, after an error), then the end of stream, and only the end of stream on every further poll. It asks the line source for nothing after the source reported its end, and never suspends without having arranged a wake-up.",
  ["schedules", "fault_sequences", "inputs"],
  "every document and corruption of it, sources that would resume after reporting their end, and any number of further polls",
  "No test polls after the end or after an error, or uses a source that is not fused.",
  AD, [m("DecoderState::Finished and lines_exhausted", "src/decode/async_decode.rs")], ["Stream::poll_next results", "calls to the source iterator"])
p("C13", "The async decode stream is incremental and demand-driven",
  "While every line read so far is a flat `key: value` field of the root object, the async decode stream delivers the events of each field before it asks the source for the next line. Creating a stream reads nothing, no line is read while decoded events wait, and each poll of such a document reads only as many lines as it needs for its next event.",
  ["schedules", "inputs"],
  "every document with a flat leading part, every consumer that stops polling at any point",
  "One test checks that some event comes out before the end; it passes even if the stream reads ahead.",
  AD, [m("SimpleObject state emits per line", "src/decode/async_decode.rs")], ["interleaving of source reads and delivered events"])
AE = ["src/encode/async_encode.rs", "src/encode/encoders.rs", "src/encode/mod.rs"]
p("C14", "The async encode streams yield what the sync encoder returns",
  "Under any poll schedule, cancellation point and interleaving, the async line stream yields exactly the lines of the synchronous encoder and the async event stream exactly its events, for the same value and options including a replacer, and both then stay ended. The line stream's reported length is always the total number of lines, however many have been consumed.",
  ["schedules", "inputs", "configurations"],
  "every value, option set and replacer, every poll schedule, early drop and interleaving of several streams",
  "One in-file test compares the event stream for one value; the line stream is never drained, and neither is polled after its end.",
  AE, [m("explicit stack machine mirroring the recursive emitter", "src/encode/async_encode.rs")], ["Stream::poll_next results", "len()"])
p("C15", "The async functions equal their sync counterparts and cancel cleanly",
  "Every async encode and decode function completes under any executor schedule with the result, error or value of its synchronous counterpart, whatever the number of lines; whenever it suspends it has arranged to be woken, and it completes within a number of polls linear in the input. Dropping it at any suspension point is safe, releases everything it held, and leaves later calls unaffected.",
  ["schedules", "inputs", "configurations"],
  "every document from empty to thousands of lines (past the runtime's cooperative budget), every poll schedule, spurious poll and drop point",
  "No test runs the async functions at all, so none sees them suspend, resume or be dropped.",
  AD + AE, [m("asupersync iter(..).count() yield points around the sync implementation", "src/decode/async_decode.rs, src/encode/async_encode.rs")], ["Future::poll results", "waker calls", "allocator balance"])
p("C16", "Concurrent and re-entrant callers do not affect each other",
  "Any number of encode and decode calls running at the same time on different threads, interleaved at any point, or started from inside another call's line source or replacer, each return exactly what they return when run alone. A call that panics in its callback affects no other call, at that time or later.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of several callers at callback and allocation points, every nesting of calls, and a panic at any callback",
  "All tests call the library from one thread at a time, never from inside a callback.",
  ["src/encode", "src/decode", "src/options.rs"], [m("no shared mutable state", "whole crate")], ["return values of all callers"])
p("C17", "A replacer sees each node once, in order, and decides the output",
  "For any replacer, including one whose answers depend on the calls so far, the encoder calls it exactly once per node of the (already replaced) tree in depth-first document order, with the node's key (index for array items, empty for the root), its normalised value and full original path; the output is the encoding of exactly the answers: removed members are absent, replacements are normalised and then descended into, and a removed root is kept. All encode entry points, sync and async, make the same calls, and a panic in the replacer at any call reaches the caller.",
  ["histories", "inputs", "fault_sequences"],
  "every value, every history-dependent sequence of keep / drop / replace answers, a panic at any call, and every encode entry point",
  "Tests use stateless replacers on flat values and compare single properties of the result, not the whole call history.",
  ["src/encode/replacer.rs", "src/encode/mod.rs", "src/encode/async_encode.rs", "src/encode/normalize.rs"], [m("apply_replacer traversal", "src/encode/replacer.rs")], ["recorded callback history", "encoded output"])
ST = ["src/decode/decoders.rs", "src/decode/validation.rs", "src/decode/parser.rs"]
p("C18", "Strict decoding detects lost and duplicated array members",
  "If storage or transport loses, duplicates or appends a member of any array in a document (a tabular row, a whole list item, an inline value), a cell of a tabular row, or alters a declared array length, strict decoding rejects the document instead of returning altered data. This holds for every array form, delimiter and nesting position.",
  ["fault_sequences", "inputs"],
  "every valid document, every array in it, and every sequence of member losses or duplications and length changes that leaves a declared length different from the number of members",
  "Tests check count mismatches on a few flat arrays; arrays nested in list items, empty-object members, zero-length declarations and multi-line items are not covered.",
  ST, [m("assert_expected_count, validate_no_extra_list_items, validate_no_extra_tabular_rows", "src/decode/validation.rs")], ["try_decode / try_decode_stream_sync result"])
p("C19", "Corrupted input is refused or decoded, never fatal",
  "Whatever bytes a faulty disk or channel hands over as text, the fallible decode functions and the CLI return a value or an error: they do not panic, loop, or use time or memory out of proportion to the input, whatever array lengths the text claims (looking up a key by walking the fields of its object counts as in proportion). A declared array length above 100,000,000 is an error in lenient mode too.",
  ["fault_sequences", "inputs"],
  "every document and every sequence of bit flips, lost, duplicated, swapped, spliced or torn ranges and lines, digit changes in declared lengths, in strict and lenient mode with and without path expansion, and nesting of any depth on a thread with an ordinary 2 MB stack (documents nested too deeply are refused); and every regular document against one of four times its length",
  "Tests feed a fixed list of malformed documents; slicing at byte offsets of multi-byte characters or sizing from claimed lengths fails only on particular corruptions.",
  ST + ["src/decode/scanner.rs", "src/decode/expand.rs", "src/shared/string_utils.rs"], [m("Result-based parsing, declared-length cap", "src/decode/parser.rs")], ["result of the call", "peak allocation", "panic hook"])
p("C20", "A truncated document never decodes to shortened or altered data",
  "If a valid document is cut off after any of its lines, strict decoding either rejects it or returns a document whose events are a prefix of the original's events followed only by the closing events of what was open; every array present has all of its declared members. The async decode stream, given a source that ends early, behaves the same.",
  ["crash_points", "inputs"],
  "every valid document and every non-empty line prefix of it, as left behind by a crashed or full-disk writer",
  "No test decodes every prefix of a document or compares it with the decoding of the whole.",
  ST + ["src/decode/async_decode.rs"], [m("strict count validation at array end", "src/decode/validation.rs")], ["event sequence of the prefix against that of the whole"])
p("C21", "Event consumers refuse incomplete or reordered event streams",
  "Given an event sequence, the JSON writer and the tree builder succeed if and only if it describes exactly one complete value (balanced containers, every key followed by its value, values in objects preceded by a key), and then both produce that value. A sequence in which events were lost, duplicated, reordered or cut off so that it no longer does is an error, never different data or invalid JSON.",
  ["fault_sequences", "histories", "inputs"],
  "every event sequence obtained from a valid one by any sequence of losses, duplications, swaps, splices and truncation",
  "Tests cover one mismatched end event and a few unbalanced sequences per consumer.",
  ["src/cli/json_stream.rs", "src/decode/event_builder.rs"], [m("context stack with key/value expectation", "src/cli/json_stream.rs, src/decode/event_builder.rs")], ["result of json_stream_from_events and build_node_from_events"])
p("C22", "Strict decoding takes in every line or refuses the document",
  "Whatever text storage or a channel hands over, when strict decoding accepts it, it takes it in whole: every line that is not blank contributes to the result. Lines that no longer belong anywhere (orphaned deeper lines, lines left over after the root value, appended fragments of the same or another document) are refused, never silently skipped. The same holds of every decode entry point and of the command line.",
  ["fault_sequences", "inputs"],
  "every document and every sequence of losses, repetitions, moves, swaps, re-indentations and insertions of its lines and blocks of lines, for every entry point",
  "Tests decode a few malformed documents and look for an error; none checks that a document that is accepted after corruption was read in full.",
  ST + ["src/decode/scanner.rs", "src/decode/async_decode.rs"], [m("validate_no_lines_left and the per-container loops", "src/decode/decoders.rs, src/decode/validation.rs")], ["events, values and output of an accepted document against the marks on its lines"])
p("C23", "Every decode entry point gives the same answer for the same text",
  "Whatever text storage or a channel hands over, intact or faulty, all decode entry points answer alike, strict and lenient: the value, event, JSON text, synchronous stream and asynchronous stream entry points either all refuse it or all accept it, and then they give the same value in the same order of keys (the panicking variants refuse by panicking), and the events they give describe exactly one value. The entry points that expand paths agree with each other as well and never accept a text that decoding without expansion refuses. The command line answers as the library does.",
  ["fault_sequences", "inputs", "configurations"],
  "every text, every fault on a text, every indent size, strict and lenient, and every pair of entry points",
  "Tests compare two entry points on a few well-formed documents; the paths share some code and differ in how lines, values and ends of containers are read.",
  ST + ["src/decode/scanner.rs", "src/decode/async_decode.rs", "src/decode/event_builder.rs", "src/lib.rs", "src/cli/json_stream.rs"], [m("one grammar, several drivers", "src/decode/decoders.rs, src/decode/async_decode.rs")], ["events, values and JSON text of all entry points against each other"])
p("C24", "Every encode entry point gives the same document for the same value",
  "For the same value and options, with or without a replacer, all encode entry points describe the same document: the text is the lines joined by newlines; the line and event streams and the asynchronous functions, under any schedule and beside cancelled calls, give the same lines and events; the events describe exactly the normalised (and replaced) value with its true array lengths; without key folding they are the events that strict decoding of the document gives, the rows of a table in the order of its columns. The functions and the command line that read the value from JSON text give the document of the value that text holds.",
  ["inputs", "configurations", "schedules"],
  "every value including ones no JSON text holds, every option set and replacer, every schedule of the asynchronous forms, and every pair of entry points",
  "Tests compare a few entry points on small documents under one schedule.",
  ["src/encode/mod.rs", "src/encode/encoders.rs", "src/encode/async_encode.rs", "src/lib.rs", "src/cli/conversion.rs"], [m("encode_json_value behind every entry point", "src/encode/mod.rs, src/encode/async_encode.rs, src/lib.rs")], ["text, lines and events of all entry points against each other and a reference encoder"])
# --- pure functions: stated, not claimed -------------------------------------------------
U = "Unit tests sample fixed inputs; the statement is over all inputs."
p("C30", "Encoding then decoding in memory is lossless",
  "For every JSON value with unique keys per object and finite numbers, decoding the encoded text with matching indentation gives back the same value, for every delimiter.",
  ["inputs", "configurations"], "every JSON value, every option set", U,
  ["src/encode/encoders.rs", "src/decode/decoders.rs"], [m("quoting rules", "src/shared/validation.rs")], ["encode / try_decode"])
p("C31", "Encoded text is the canonical TOON form",
  "Encoded text follows the TOON specification's canonical form: minimal quoting, tabular form exactly for uniform arrays of flat objects, inline form exactly for arrays of primitives, no trailing spaces or newline.",
  ["inputs", "configurations"], "every JSON value, every option set", U,
  ["src/encode/encoders.rs", "src/encode/primitives.rs"], [m("form selection", "src/encode/encoders.rs")], ["encode output"])
p("C32", "Key folding and path expansion are inverse",
  "For keys that are identifiers, decoding with safe path expansion undoes safe key folding at every flatten depth.",
  ["inputs", "configurations"], "every value without dotted keys, every flatten depth", U,
  ["src/encode/folding.rs", "src/decode/expand.rs"], [m("collision checks", "src/encode/folding.rs")], ["encode / try_decode"])
p("C33", "Path expansion conflicts are decided, not silent",
  "In strict mode any two expanded paths that disagree on a node's kind are an error; in lenient mode the later one wins.",
  ["inputs"], "every pair of conflicting paths", U, ["src/decode/expand.rs"], [m("insert_path_entries", "src/decode/expand.rs")], ["try_decode"])
p("C34", "Strict mode enforces indentation and blank-line rules",
  "Strict decoding rejects tabs in indentation, indentation that is not a multiple of the indent size, and blank lines inside arrays; lenient decoding accepts them.",
  ["inputs"], "every document and position", U, ["src/decode/scanner.rs", "src/decode/validation.rs"], [m("parse_line_incremental", "src/decode/scanner.rs")], ["try_decode"])
p("C35", "Numbers are canonical decimals",
  "Numbers are printed without exponent, with -0 as 0 and non-finite values as null, and parse back to the same double.",
  ["inputs"], "every double", U, ["src/encode/primitives.rs", "src/encode/normalize.rs"], [m("format_number", "src/encode/primitives.rs")], ["encode"])
p("C36", "The WebAssembly bindings equal the library",
  "Each exported WebAssembly function returns what the library function returns for the same options.",
  ["inputs"], "every input and options object", "The bindings are not run by any test.", ["src/wasm.rs"], [m("thin wrappers", "src/wasm.rs")], ["wasm exports"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
