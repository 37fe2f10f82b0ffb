#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so long texts stay readable). Run: python3 tools/props.py
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

BS = [("search cursor", "how much of the buffered data may be handed out as field data", "src/server/boundary.rs BoundaryReader::search_idx"),
      ("reader state", "searching / delimiter found / closing delimiter seen", "src/server/boundary.rs State")]

p("C01", "Field contents are delivered byte-exact for any content and any chunking",
  "For every well-formed body, reading it on the server yields exactly the fields that were encoded, in order, each with exactly its content bytes: nothing added, lost, altered or attributed to another field. This holds for every content that does not contain the delimiter string (two dashes and the boundary; including bytes that look like part of one, stray CR/LF and dashes, empty contents and contents larger than the internal buffer), however the transport splits the body into reads, and whichever way and in whatever sizes the caller reads.",
  ["inputs", "schedules"], "all field contents, all splits of the body into transport reads, all caller read sizes and styles (Read, BufRead)",
  "The tests use fixed bodies split in one place, or a handful of random bodies with random read sizes; a delimiter look-alike straddling a read or buffer edge at the one bad offset is not sampled.",
  ["src/server/boundary.rs", "src/server/field.rs", "src/server/mod.rs"],
  [("delimiter search with partial-match hold-back", "src/server/boundary.rs find_boundary, BoundaryReader::read_to_boundary"), ("delimiter consumption", "src/server/boundary.rs BoundaryReader::consume_boundary")],
  ["Multipart::read_entry", "MultipartData as Read/BufRead"], BS)

p("C02", "The decoding of any body depends only on its bytes, not on how they arrive",
  "For any byte sequence whatsoever as the request body, the sequence of fields, their headers and contents, and the way the request ends (clean end or error) is a function of the bytes alone. Two transports delivering the same bytes in differently sized reads produce the same result.",
  ["inputs", "schedules"], "all bodies (also malformed or truncated ones) and all pairs of splits into reads",
  "Tests compare one split with one expected result for well-formed bodies; they never compare two schedules on malformed bodies.",
  ["src/server/boundary.rs", "src/server/field.rs"],
  [("minimum-buffer policy before parsing", "src/server/boundary.rs BoundaryReader::from_reader, set_min_buf_size"), ("header parsing retried until complete", "src/server/field.rs with_headers")],
  ["Multipart::read_entry", "MultipartData as Read/BufRead"], BS)

p("C03", "No request body can crash or hang the server-side reader",
  "For any body bytes, any split into reads and any sequence of calls a caller can make while reading a request, the server API returns (a field, the end, or an error) without panicking and without looping forever. Field data handed to the caller always comes from the request body and never exceeds it.",
  ["inputs", "schedules", "histories"], "all byte sequences, boundaries, read splits and call sequences",
  "A fuzz target exists but nothing in the test suite feeds arbitrary bytes; slicing and index arithmetic faults need specific bytes at specific buffer positions.",
  ["src/server/boundary.rs", "src/server/field.rs", "src/server/mod.rs"],
  [("index arithmetic of the search cursor", "src/server/boundary.rs read_to_boundary, consume_boundary, consume"), ("no-growth check in header parsing", "src/server/field.rs with_headers")],
  ["Multipart::read_entry / into_entry / foreach_entry", "MultipartField::next_entry / next_entry_inplace", "MultipartData as Read/BufRead"], BS)

p("C04", "Fields left unread or half-read never disturb the fields after them",
  "Whatever part of a field's data the caller has read, peeked at or skipped when it asks for the next entry, the next entry is the one that follows in the body, with its own headers and complete content. Re-tuning the minimum buffer size while reading a field does not change what that field or any later field delivers.",
  ["histories", "inputs", "schedules"], "all sequences of partial reads, peeks, consumes and skips per field, all contents, all splits",
  "Tests either read every field to the end or skip one whole field of a fixed body; a prefix consumed up to the byte before the delimiter is not tried.",
  ["src/server/boundary.rs", "src/server/field.rs"],
  [("discarding the rest of the current field", "src/server/boundary.rs consume_boundary"), ("cursor accounting on consume", "src/server/boundary.rs BufRead::consume"), ("entry iteration", "src/server/field.rs ReadEntry::read_entry, MultipartField::next_entry_inplace")],
  ["Multipart::read_entry", "MultipartField::next_entry, next_entry_inplace", "Multipart::foreach_entry"], BS)

p("C05", "The end is reported only after the closing delimiter, and stays reported",
  "The reader reports a clean end of the request only when the closing delimiter was received; a body that stops earlier, at any byte, ends in an error instead. Once the end is reported, further calls keep reporting it and nothing after the closing delimiter is ever presented as a field or as field data.",
  ["inputs", "crash_points", "schedules"], "all truncation points, epilogue bytes, splits, and any number of calls after the end",
  "Tests check one unterminated body and one empty body; not every truncation point under every split, nor calls after the end.",
  ["src/server/boundary.rs"],
  [("closing delimiter recognised and latched", "src/server/boundary.rs consume_boundary, State::AtEnd"), ("end of input while searching is an error", "src/server/boundary.rs consume_boundary")],
  ["Multipart::read_entry", "Multipart::foreach_entry"], BS)

p("C06", "A failing or interrupted transport read is reported and never alters the data",
  "When a read of the request body fails, the caller gets an error from that call - never a shortened field, a skipped field or a clean end in its place. If the fault was transient and the caller reads on in the same field, the field's content is delivered exactly as if the fault had not happened, and every field returned after a fault is still exact; asking for the next entry again after an error between fields returns that entry, none is skipped.",
  ["fault_sequences", "schedules", "inputs"], "all positions and kinds of transport read faults, all splits and contents",
  "No test injects a read error; the interesting ones fall between the delimiter and the headers or in the middle of a delimiter.",
  ["src/server/boundary.rs", "src/server/field.rs"],
  [("errors propagate before the cursor moves", "src/server/boundary.rs read_to_boundary, consume_boundary"), ("header errors surface", "src/server/field.rs with_headers, read_headers")],
  ["Multipart::read_entry", "MultipartData as Read/BufRead"], BS)

p("C07", "Field name, filename and content type are decoded exactly as sent",
  "For every well-formed field header block within the reader's limits (at most four headers, fitting its buffer), the decoded field name and filename are exactly the parameter values sent (without their quotes), and the content type is the one sent, each absent exactly when it was not sent. Header-name letter case, header order, unrelated extra headers and parameters, optional spacing and parameter order do not change the result.",
  ["inputs"], "all names and filenames (any characters the format can carry, including separators and look-alike parameter names inside quotes), all header orders, letter cases and spacings",
  "Tests use alphanumeric names in one header layout; separators inside quoted values or reordered parameters are never tried.",
  ["src/server/field.rs"],
  [("Content-Disposition parsing", "src/server/field.rs ContentDisp::parse_required, get_str_after, trim_quotes"), ("case-insensitive header lookup", "src/server/field.rs find_header"), ("content type parsing", "src/server/field.rs parse_content_type")],
  ["MultipartField::headers", "MultipartField::is_text"])

p("C08", "A field with unusable headers is rejected with an error",
  "A field whose header block is not well-formed, has no Content-Disposition, is not of type form-data, has no name, or carries an unparsable Content-Type is never returned as a field: the call yields an error. A field is also never made up from body data: headers are taken only from the block directly after a delimiter.",
  ["inputs"], "all header blocks within the bounds: arbitrary bytes in header position",
  "Only one malformed request is tested, with nothing else varied.",
  ["src/server/field.rs", "src/server/boundary.rs"],
  [("required Content-Disposition", "src/server/field.rs ContentDisp::parse_required"), ("header tokenising errors", "src/server/field.rs with_headers"), ("bytes after the delimiter are verified", "src/server/boundary.rs consume_boundary")],
  ["Multipart::read_entry"])

p("C09", "Everything the streaming client writes is decoded identically by the server",
  "For any sequence of text, stream and file fields written with the streaming client, the body it produces decodes on the server to the same sequence: same names, filenames and content types (octet-stream for streams by default, guessed from the extension for files, none for text) and byte-identical contents. This holds for any content, for streams that deliver it in any chunk sizes, and for transports that accept only part of each write.",
  ["inputs", "schedules", "programs"], "all field sequences, contents, source chunkings and short-write patterns of the transport",
  "The round-trip tests sample a few random alphanumeric fields; binary contents, empty fields and particular short-write patterns are left to chance.",
  ["src/client/mod.rs", "src/client/sized.rs", "src/server/boundary.rs", "src/server/field.rs"],
  [("field and delimiter framing", "src/client/mod.rs MultipartWriter"), ("buffering variant", "src/client/sized.rs SizedRequest")],
  ["client::Multipart::write_text/write_stream/write_file/send", "server::Multipart::read_entry"])

p("C10", "Every client body is framed by exactly the boundary announced to the request",
  "The boundary passed to the request's headers is the one that frames the body: every field is introduced by a delimiter with it, and exactly one closing delimiter ends the body, also for a request with no fields. Each generated boundary is a non-empty ASCII-alphanumeric string of at most 70 characters, whatever the random source yields.",
  ["inputs", "programs"], "all field sequences and all outputs of the random number generator",
  "Tests only parse bodies back; they never inspect framing, empty requests or boundary syntax for all random outputs.",
  ["src/client/mod.rs", "src/client/lazy.rs", "src/client/sized.rs", "src/lib.rs"],
  [("boundary generation", "src/client/mod.rs gen_boundary, src/lib.rs random_alphanumeric"), ("closing delimiter", "src/client/mod.rs MultipartWriter::finish, src/client/lazy.rs PreparedFields::from_fields")],
  ["client::HttpRequest::apply_headers", "client::HttpStream as Write", "PreparedFields::boundary"])

p("C11", "An announced content length always equals the number of body bytes sent",
  "Whenever a client API announces a content length (buffered requests always; prepared requests whose length is known), the number of body bytes written to the transport is exactly that length. When the length is not known in advance (a prepared request with a generic stream), none is announced.",
  ["inputs", "programs"], "all mixes of text, file and stream fields, contents and name lengths",
  "Tests never compare the announced length with the bytes sent.",
  ["src/client/lazy.rs", "src/client/sized.rs"],
  [("length accounting while preparing", "src/client/lazy.rs PreparedFields::from_fields, PreparedField::from_path"), ("length from the filled buffer", "src/client/sized.rs HttpStream::finish")],
  ["client::HttpRequest::apply_headers", "PreparedFields::content_len", "bytes written to HttpStream / read from PreparedFields"])

p("C12", "A prepared request delivers every added field exactly, however it is read",
  "For any set of text, file and stream fields added to a prepared request, the body it yields decodes on the server to exactly those fields (order aside): names, filenames, content types and byte-identical contents. This holds whatever buffer sizes it is read with and whatever chunk sizes its streams deliver, and the end is reported only after everything was delivered and stays reported.",
  ["inputs", "schedules", "programs"], "all field mixes, contents, caller buffer sizes and stream chunkings",
  "The lazy round-trip tests read with one 8 KiB copy buffer and sources that fill it; a one-byte buffer or a short-reading stream is not tried.",
  ["src/client/lazy.rs"],
  [("sequencing of text data, streams and closing delimiter", "src/client/lazy.rs PreparedFields::read, PreparedField::read")],
  ["client::lazy::Multipart::prepare/send", "PreparedFields as Read", "server::Multipart::read_entry"])

p("C13", "Client-side I/O faults are reported, and interruptions lose or repeat nothing",
  "If a source, file or transport fails while a client request is being built or sent, the call returns an error; success is only returned when the complete, correctly framed body was accepted by the transport. An interrupted read or write is retried without losing, duplicating or reordering any body byte. A file that cannot be opened adds nothing to a streamed body, so the request can go on without it, and building a prepared request with it fails with an error that names its field.",
  ["fault_sequences", "inputs"], "all positions and kinds of source read faults, transport write faults, short writes, open failures and refused headers",
  "No test injects a client-side fault.",
  ["src/client/mod.rs", "src/client/lazy.rs", "src/client/sized.rs"],
  [("error propagation through the writer", "src/client/mod.rs MultipartWriter, map_self"), ("reading across parts", "src/client/lazy.rs PreparedFields::read"), ("send paths", "src/client/lazy.rs Multipart::send, src/client/sized.rs finish")],
  ["client::Multipart::*", "client::lazy::Multipart::send/prepare", "PreparedFields as Read"])

p("C14", "Saving a field never stores more than the size limit, and says when it was hit",
  "For any size limit and memory threshold, the bytes saved for a field (in memory or on disk) never exceed the size limit. The save is reported complete exactly when the whole field fits the limit; otherwise it is reported partial with the size-limit reason and what is stored is a prefix of the field.",
  ["inputs", "configurations", "schedules"], "all 64-bit size limits and memory thresholds, all content lengths and splits",
  "Nothing in the test suite sets a size limit; the interplay with the memory threshold and read sizes is untested.",
  ["src/server/save.rs"],
  [("limit checks while copying", "src/server/save.rs try_copy_limited, read_mem, write_to, cmp_size_limit"), ("switch from memory to file", "src/server/save.rs with_path")],
  ["MultipartData::save().with_path/with_dir/temp/with_filename/write_to", "Multipart::save().*"])

p("C15", "Fields go to disk only past the memory threshold",
  "A field is kept in memory, and no file or directory is created for it, as long as its content does not exceed the memory threshold, or whenever the size limit is less than or equal to the threshold. Larger fields are stored in a file, whole; in memory there is never more than the threshold.",
  ["inputs", "configurations", "schedules"], "all 64-bit thresholds and limits, all content lengths and splits, all text policies",
  "No test varies the threshold or checks where data went.",
  ["src/server/save.rs"],
  [("memory-first saving", "src/server/save.rs with_path, save_text, save_mem, read_mem")],
  ["SavedData::is_memory", "files created"])

p("C16", "Text handling follows the chosen policy for every byte sequence",
  "A field saved as text is always its exact content and valid UTF-8. When trying text, in-memory content of a text field becomes text if it is valid UTF-8 and bytes if not, however it is split into reads; when ignoring text (or for non-text fields of a request) it is never text; when forcing text, invalid content within the memory threshold is reported as a UTF-8 error and not as success.",
  ["inputs", "configurations", "schedules"], "all contents (valid, invalid, truncated multi-byte sequences), all splits, all three policies",
  "Tests save only ASCII contents with the default policy.",
  ["src/server/save.rs", "src/server/field.rs"],
  [("incremental UTF-8 validation", "src/server/save.rs save_text"), ("policy per field", "src/server/save.rs with_entries, MultipartField::is_text")],
  ["SavedData::Text/Bytes", "PartialReason::Utf8Error"])

p("C17", "Saved data reads back exactly as received, under the right name",
  "After a save reports success, each saved field's data, whether text, bytes or file, reads back byte-identical to the field's content, its reported size is that content's length, and its headers are the field's. Saving a whole request returns every field, grouped by name in order of arrival, and counts them correctly.",
  ["inputs", "programs", "schedules", "configurations"], "all field sequences incl. repeated and empty names, all contents and splits, memory and file storage",
  "The save API is only exercised for one request shape; repeated names and file storage are not compared with the input.",
  ["src/server/save.rs"],
  [("saving fields in a loop", "src/server/save.rs with_entries, Entries::push_field"), ("reading back", "src/server/save.rs SavedData::readable, size, DataReader")],
  ["Entries::fields, fields_count", "SavedData::readable/size"])

p("C18", "The field-count limit is enforced exactly",
  "Saving a request stores at most as many fields as the count limit allows. It is reported as complete if the request has no more fields than the limit and as stopped by the count limit if it has more; fields stored up to then are returned intact.",
  ["inputs", "configurations"], "all 32-bit count limits and field counts, with and without pre-existing entries",
  "No test sets a count limit.",
  ["src/server/save.rs"],
  [("count check per field", "src/server/save.rs with_entries, Entries::recount_fields")],
  ["SaveResult", "Entries::fields_count", "PartialReason::CountLimit"])

p("C19", "Storage and transport faults while saving are reported with what was saved",
  "If creating, opening or writing a file fails, or the transport fails, the save is never reported as complete: it is reported as an error or as partial with that error, and whatever is reported as saved is a true prefix of the field that really is where the result says. While a field's data is copied, interrupted reads and writes are retried and short writes completed, without losing or repeating bytes.",
  ["fault_sequences", "crash_points", "inputs"], "all positions of short writes, interruptions, no-space and open/mkdir failures and of transport faults",
  "No test injects a storage fault.",
  ["src/server/save.rs"],
  [("copy loops", "src/server/save.rs try_read_buf, try_copy_limited, try_write_all"), ("file creation", "src/server/save.rs with_path, create_dir_all")],
  ["SaveResult of all save calls", "files created"])

p("C20", "Saving never touches existing files and creates files only where asked",
  "By default a save never overwrites, truncates or appends to a file that already exists: it fails instead. Files and directories are created only inside the directory (or at the path) chosen by the caller, or the OS temporary directory for temporary saves, under names not derived from client-sent data; a request's temporary directory is removed with all its contents when dropped, and kept when asked to.",
  ["inputs", "configurations", "histories"], "all client-sent names and filenames, all random names, pre-existing files, and drop/keep/delete/into_path sequences",
  "No test looks at the filesystem after a save, nor with colliding names or hostile filenames.",
  ["src/server/save.rs"],
  [("create_new open options", "src/server/save.rs SaveBuilder::new, mod_open_opts"), ("random file names", "src/server/save.rs rand_filename, with_dir, temp, with_filename"), ("temporary directory ownership", "src/server/save.rs SaveDir")],
  ["files created, opened, removed"])

p("C21", "Interrupted saves can be resumed without losing or repeating data",
  "When saving a request stops early (count limit, size limit, fault), the result together with what is still readable from the returned partial field and the remaining body accounts for every byte of the request: nothing is lost and nothing appears twice. Resuming with the returned entries continues with the next field and adds to them without disturbing the ones already saved.",
  ["histories", "configurations", "fault_sequences"], "all stop points, limits and resumption sequences",
  "No test resumes a save.",
  ["src/server/save.rs", "src/server/field.rs"],
  [("partial results", "src/server/save.rs PartialEntries, PartialSavedField, with_entries, keep_partial")],
  ["PartialEntries", "SaveBuilder::with_entries", "MultipartField::data"])

p("C22", "Save results never turn a failure into a success when converted",
  "Converting a save result with the provided combinators preserves what it says: a failure is never converted into a success (the strict conversion also fails for partial results caused by an I/O error), saved data is never dropped by the conversions that promise to keep it, and the reason of a partial result survives mapping. Entry results convert the same way: entry, end and error stay distinguishable.",
  ["inputs"], "all variants of save and entry results with arbitrary payloads",
  "None of the combinators is tested.",
  ["src/server/save.rs", "src/server/field.rs"],
  [("combinators", "src/server/save.rs SaveResult::*, PartialEntries::keep_partial, PartialReason::*; src/server/field.rs ReadEntryResult::*")],
  ["SaveResult::into_result, into_result_strict, into_opt_both, okish, map, into_entries", "ReadEntryResult::into_result, unwrap_opt"])

p("C23", "The mock transports carry every byte exactly once, in order",
  "Whatever lengths the random source picks, the mock client buffer and server request transfer all bytes offered, in order and exactly once, always make progress on non-empty buffers, and report the end only when the data is exhausted. The stdout tee forwards to the wrapped writer exactly the bytes it reports as written, even if stdout accepts only part of them.",
  ["inputs", "schedules", "fault_sequences"], "all data, all random lengths, all caller buffer sizes, all short writes of stdout",
  "Tests use the mocks with a few random draws and never look at them in isolation; the tee is untested.",
  ["src/mock.rs"],
  [("random short reads and writes", "src/mock.rs HttpBuffer::write, ServerRequest::read"), ("tee", "src/mock.rs StdoutTee::write")],
  ["HttpBuffer as Write", "ServerRequest as Read", "StdoutTee as Write"])

p("C24", "Multipart requests are recognised exactly, with the right boundary",
  "A server-side integration treats a request as multipart exactly when it is a POST with content type multipart/form-data and a boundary parameter, and then uses exactly that boundary (unquoted); any other request is handed back unchanged. The client-side integration announces multipart/form-data with the generated boundary, and the content length when known.",
  ["inputs", "configurations"], "all methods, content types, parameter orders and boundary values (quoted or not)",
  "Request detection is only exercised in examples, by hand.",
  ["src/server/hyper.rs", "src/server/iron.rs", "src/server/nickel.rs", "src/server/tiny_http.rs", "src/client/hyper.rs", "src/server/mod.rs"],
  [("content-type inspection", "src/server/{hyper,iron,nickel,tiny_http}.rs multipart_boundary"), ("content-type construction", "src/client/hyper.rs multipart_mime, apply_headers")],
  ["server::HttpRequest::multipart_boundary", "server::Multipart::from_request", "client::HttpRequest::apply_headers"])

p("C25", "The request-intercepting middleware enforces its limits as configured",
  "When set to throw, the middleware rejects every multipart request with a file over the size limit or with more fields than the count limit, and otherwise stores all fields for the handler. When set to continue, it always finishes, truncating oversized fields to at most the limit and keeping the others intact; requests that are not multipart pass through untouched in both modes. Files are kept in a temporary directory below the configured one, which is created if missing, and are gone after a rejected request and once the entries are dropped.",
  ["inputs", "configurations", "fault_sequences"], "all request shapes, size and count limits, both behaviours, file system faults",
  "The middleware has only a compile test.",
  ["src/server/iron.rs", "src/server/save.rs"],
  [("strict and lenient request reading", "src/server/iron.rs read_request_strict, read_request_lenient")],
  ["BeforeMiddleware::before", "request extensions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
