"""What is explored for each property: harness entry points and their concrete parameters (the bounds).
q: parameter tuples of the quick tier; t: additional ones of the thorough tier. See DESIGN.md for the meaning of the parameters."""
from itertools import product

def P(*axes):
    """cartesian product; scalars are fixed"""
    return [tuple(x) for x in product(*[a if isinstance(a, (list, tuple, range)) else [a] for a in axes])]

CHECKS = {}
def check(pid, jobs, reach, bounds, assume=(), outside="", **kw):
    CHECKS[pid] = dict(jobs=jobs, reach=list(reach), bounds=bounds, assume=list(assume), outside=outside, **kw)
def J(entry, q, t=(), **kw):
    return dict(entry=entry, q=list(q), t=list(t), **kw)

SERVER_ASSUME = [
    "the compiler's lowering to LLVM IR (optimisation level 1) is taken as the code; sampled paths are re-run on the natively compiled library",
    "memory and allocation never fail; one thread",
]

check("C01", [
    J("h_c01_small", P(2, 1, range(6), [0, 3], [2, 3]) + P([5], [2], [0, 1, 2, 3, 4, 5], [0, 3], [0, 1]) + P(7, 0, [0, 3], [0], 0) + P(3, 1, [0, 3], [1, 2, 4, 5], 0),
      P(9, 2, [0, 1, 3], [0, 3], 0) + P(12, 0, [0, 5], [0], 0) + P(5, 2, [0, 1, 3], [1, 2, 4, 5], 0)),
    J("h_c01_chunk", P(6, [0, 1, 3, 4], [0, 1, 3], 22, 0) + P([4], [0], [2, 4], 20, 0) + P(8, [0, 5], 3, 30, 0) + P(3, 0, 3, 10, 3, 2),
      P(10, [0, 1, 5], [0, 3], 34, 0) + P(6, [0, 1, 3], [2, 4], 22, 0) + P(4, [0, 3], 3, 12, 3, 3)),
    J("h_ways", P(2, [0, 3], range(6), 0, 0, [0, 7]) + P(1, 5, range(6), 0, 0, 1), P(4, [0, 1], range(6), 0, 0, [0, 5])),
    J("h_c01_edge", P(3, 0, [0, 3], [2, 4], 9, 0) + P(3, [0, 1, 5], [0, 3], [1, 4, 7], 1, [1, 2, 3, 4]) + P(2, 0, 5, 4, 9, [2, 4]) + P(5, [0, 1, 3, 5], [0, 3], range(0, 9)), P(8, [0, 1, 5], [3], range(0, 12)) + P(5, [0, 5], [5], range(0, 9))),
], ["c01 whole body read", "c01 chunked body read", "c01 edge body read", "ways end"],
    "three-field bodies, also after a preamble (a CRLF, a line of 3 arbitrary bytes, a line of 9 KB); up to 7 (thorough 12) symbolic content bytes per body, not containing --boundary; 6 boundaries; reading by read_to_end, 1-byte, 1..3-byte symbolic, 64-byte reads, fill_buf/consume whole and partial; "
    "arrival: all at once, first transport read ending at any offset in a window around the symbolic bytes with a small minimum buffer, at most 2 further symbolic splits; content position swept across the 8 KiB buffer edge; contents of up to 74 KB and of repeated near-delimiters; all six ways to ask for entries",
    SERVER_ASSUME, "contents with more free bytes, boundaries other than the listed ones, more than two symbolic split points")

check("C02", [
    J("h_c02", P(0, [5, 6], [0], 18, 0, [0, 3]) + P(0, [6], [1, 3], 18, 0, 3) + P(1, [4, 5], [0, 1], 18, 0, 3) + P(2, [4], [0, 1], 18, 0, 3) + P(3, [3], 0, 10, 0, 3) + P(4, [6, 8], [0], 0, [0, 1], 0) + P(5, [6, 8], [0, 3], 0, 1, 0),
      P(0, [8, 9], [0, 1], 22, 0, [1, 3]) + P(1, [7], [0, 1, 3], 22, 0, 3) + P(2, [6], [0, 1], 22, 0, 3) + P(3, [4], 0, 12, 0, 3) + P(4, [10], 0, 0, 1, 0) + P(5, [10], [0, 1], 0, 1, 0)),
    J("h_c02_hdr", P(1000, 1, [1020, 1060], 8, 0) + P(8000, 1, 1022, 2, 0) + P(8110, 1, [1024], 2, 700) + P([8145, 8146, 8147], 0, 1024, 1, 0),
      P(1000, 2, 1000, 90, 0) + P(8000, 2, 1020, 40, 0) + P(8110, 2, 1024, 20, 600) + P(range(8120, 8160), 0, 1024, 3, 0)),
], ["c02 clean end", "c02 error end", "c02 long headers accepted", "c02 long headers rejected"],
    "bodies with up to 8 (thorough 10) arbitrary bytes in a field tail, between fields, after a delimiter, in a header block, at the start, or as the end of the body; one schedule delivers everything at once, the other ends its first read at any offset of a window around those bytes",
    SERVER_ASSUME, "bodies with more free bytes than that, more than one symbolic split per body")

check("C03", [
    J("h_c03", P(6, [6, 8], [0, 2, 6, 7], 4, 0) + P(5, [5], [0], 3, 0) + P(0, [4], 0, 3, 0) + P(1, 3, 0, 3, 0) + P(2, [2], 0, 3, 0) + P(3, 2, 0, 2, 0),
      P(6, [12], [0, 7], 4, 0) + P(5, [7], [0, 6], 4, 0) + P(0, [6], 0, 4, 0) + P(2, [4], 0, 3, 0) + P(3, 3, 0, 3, 0)),
    J("h_c03_drain", P([6, 10], 6, [0, 2], [0, 1, 2]) + P([5], [0, 1, 2, 4, 5], [0], [0, 1, 2]) + P(3, 3, 0, [0, 1, 2]),
      P([14], 6, [0, 2], [0, 1, 2]) + P([8], [0, 1, 2, 4, 5], [0, 1], [0, 1, 2]) + P(4, 3, 0, 0)),
    J("h_c08", P(0, range(0, 54, 3), 2) + P(0, [29, 36, 52], 2) + P(1, [10, 22, 58, 62], 2) + P([3, 4, 5], 0, 4), P(0, range(0, 53), 3) + P(1, range(0, 64, 2), 3) + P([3, 4, 5], 0, 6)),
], ["c03 end", "c03 error", "c03 field", "c03 drained", "c03 drain error"],
    "bodies of up to 10 (thorough 14) arbitrary bytes, or a well-formed start followed by up to 5 (thorough 8) arbitrary bytes in each of six places; boundaries from the list, one arbitrary ASCII character, or empty; up to 4 arbitrary calls out of "
    "read_entry/read/fill_buf+consume/read_to_end/set_min_buf_size(0|4096)/next_entry_inplace, or the foreach_entry loops; hang = more than 30 million IR instructions on a path", SERVER_ASSUME, "longer call sequences, minimum buffer sizes near usize::MAX (the buffer cannot be allocated), out of memory")

check("C04", [
    J("h_c04", P(2, 1, [0, 1], 2, 0, 0, 0) + P(5, 1, [0, 3], 1, 0, 0, 3) + P(4, 1, [0], 1, 1024, 16, 0) + P([5], 1, [0, 1], 1, 1024, 13, 0),
      P(2, 1, 0, 3, 0, 0, 0) + P(4, 2, [0, 1, 3], 2, 1024, 20, 0) + P(4, 1, 0, 2, 1024, 20, 3)),
    J("h_ways", P(2, [0, 3], range(6), [1, 2], 0, [0, 7]), P(4, [0, 1], range(6), [1, 2], 0, 5)),
    J("h_c04_min", P(4, [0, 1], [2, 3, 4], [8139, 8140, 8141, 8142, 8143], 0, 3, [0, 1]) + P(4, 0, 2, [8141], [3, 8], [0, 3], 1),
      P(6, [0, 1, 3, 5], [0, 2, 3, 4], range(8130, 8150), [0, 4], [0, 3], [0, 1])),
], ["c04 all fields seen", "c04 re-tuned"], "three fields, contents of up to 5 (thorough 4 with two symbolic operations) symbolic bytes at the end of a field that is left alone, partly read, peeked or retuned; filler of 0 or 1 KiB, arrival at every split in a window of up to 20 bytes; minimum buffer sizes up to the size of the buffer and beyond, content ends around the 8 KiB edge", SERVER_ASSUME, "more than two operations on a field before leaving it")

check("C05", [
    J("h_c05", P(3, 2, [0, 1, 3], [0, 3, 9], 0, [0], 0) + P(3, 1, [0, 1], [3, 9], 1024, [0, 1, 3], 0) + P(2, 1, 0, [0, 9], 0, 0, [2, 99]),
      P(5, 3, [0, 1, 3, 4], [0, 3, 4, 9], 0, [0, 7], 0) + P(5, 2, [0, 1, 5], [0, 3, 9], 1024, [0, 1, 3], 0)),
    J("h_ways", P(1, [0, 1, 3], range(6), [0, 1, 2], 1, 0) + P(1, 0, range(6), [0, 1], 1, 7), P(3, [0, 3], range(6), [0, 1, 2], 1, 5)),
    J("h_c05_handle", P([0, 3], [0, 1])), J("h_c08_delim", P([2, 3])),
], ["c05 clean end", "c05 truncated", "c05 handle after end"], "a body of three fields with up to 3+2 (thorough 5+3) symbolic content bytes cut at every byte (or with symbolic bytes after the closing delimiter), several ways of reading, symbolic arrival, calls after the end", SERVER_ASSUME, "bodies larger than two buffers")

check("C06", [
    J("h_c06", P(3, [0, 1], [1, 3, 9], [4, 7], 1, 1, 0) + P(4, [0, 1], [0, 1, 3, 9], [3, 5], 1, 0, 1024) + P(3, 0, [0, 3], 4, 0, 2, 1024) + P(4, 0, [0, 1, 3], [2, 3], 0, 1, 1024) + P(3, [0, 1], [4, 5], [4, 7], 1, 1, 0) + P(3, 0, [4, 5], 3, 0, 1, 1024),
      P(5, [0, 1, 3], [0, 1, 3, 9], [1, 2, 3, 5], 1, 1, 1024) + P(4, [0, 1], [0, 1, 3, 9], [2, 3], 1, 1, 0)),
], ["c06 end", "c06 fault between fields", "c06 fault inside a field"], "bodies of up to 5 symbolic content bytes; up to two faults (interrupted and hard), each before any transport read, reads split symbolically; four ways of reading", SERVER_ASSUME, "more than two faults per request")

check("C07", [
    J("h_c07", P(3, 99, 0, range(0, 144, 3), 0) + P(2, 2, 0, range(1, 144, 3), 0) + P(2, 1, 1, [0, 5, 40, 70, 100], 2) + P(4, 99, 0, 0, 0) + P(0, 0, 0, [0, 3, 48], 0),
      P(4, 99, 0, range(0, 144), 1) + P(3, 3, 0, range(0, 144), 0) + P(3, 2, 2, range(0, 144, 7), 2)),
    J("h_c07_misc", P(0, [1, 2]) + P([1, 2, 3, 5, 6, 7, 8, 9], [1, 2]) + P([10, 11, 12, 13], 2, [0, 7, 300]) + P([14, 15], [1, 4, 5, 8, 9]) + P([16, 17], [1, 12, 13, 19, 25]), P([0, 1, 2, 9], [3, 4]) + P([3, 5, 6, 7, 8], 3)),
], ["c07 headers decoded", "c07 misc decoded"], "header blocks in all combinations of header order, extra headers, parameter order, spacing, letter case of up to 3 letters, with or without filename and content type; names and filenames of up to 4 symbolic characters (printable, or two-byte UTF-8) except quotes, and backslashes that might be read as escapes; unquoted tokens up to 4; other parameters and headers with names of up to 25 symbolic characters; long values (header blocks of 1.5 to 5 KB) arriving whole, in pieces of 7 and of 300 bytes; blocks of four headers", SERVER_ASSUME, "quoted-pair escapes inside quoted strings (browsers do not send them; the reader does not unescape)")

check("C08", [
    J("h_c08", P(0, range(0, 55), 2) + P(1, range(20, 66, 2), 2) + P(2, range(32, 76, 2), 2) + P([3, 4, 5], 0, [0, 3]) + P(6, 0, 4) + P(7, 0, [4, 6, 8, 9, 10]) + P(8, 0, [1, 12, 19, 20]) + P(9, 0, [1, 4, 5, 8]),
      P(0, range(0, 54), 3) + P(1, range(0, 65), 3) + P(2, range(30, 76), 2) + P([3, 4, 5], 0, 4) + P(6, 0, 7)),
    J("h_c08_delim", P([2, 3, 4])), J("h_c08_inner", P([0, 3, 5]), P(8)),
], ["c08 accepted", "c08 rejected", "c08 delimiter ok", "c08 delimiter end", "c08 delimiter bad", "c08 inner data skipped"], "three header blocks with a window of 2 (thorough 3) arbitrary bytes at every position, whole values replaced by up to 4 (7) arbitrary bytes; disposition types, header names and parameter names of up to 20 symbolic characters; 2..4 arbitrary bytes after a delimiter; judged by an independent parser in the harness", SERVER_ASSUME, "wider windows")

CLIENT_ASSUME = SERVER_ASSUME + ["names and filenames without quotes and line breaks, which the client writes as they are (see the known finding of C09)",
    "the random source is a fixed sequence, except in C10, where its words are arbitrary", "files live in the in-memory model of the file system"]

check("C09", [
    J("h_c09", P([90, 91, 93, 94, 95, 96], [0, 2], 0, [0, 2], 1, [0, 1]) + P([92, 90], [1], [1, 2], 0, 0, [0, 1]) + P([9012, 9123, 9300], [1], 0, [0, 2], 0, [0, 1]) + P([97], 2, 0, 0, 1, [0, 1]) + P([9, 9333, 94567], 1, 0, 0, 0, [0, 1]) + P([901], 3, 0, 0, 0, 0)
      + P([93], 1, [1, 2], 0, 0, [0, 1]) + P([98888], 1, 0, 0, 0, [0, 1]) + P([988888], 0, 0, 0, 0, [0, 1]) + P([9103], [9020, 9001, 9200], 0, 0, 0, [0, 1]) + P([91, 912], 2, 0, [0, 2], 0, [0, 1], 1) + P([90, 91, 92, 9012, 9201], [0, 1], 9, 0, 0, [0, 1]) + P([99], 1, 0, 0, 0, [0, 1]) + P([97, 99], 7, 0, 0, [0, 1], [0, 1]),
      P([91, 90], [6], 0, [0, 3], 0, [0, 1]) + P([92], [2], [3], 0, 0, [0, 1]) + P([9012, 9123, 9300], [2], 0, [2], 1, [0, 1]) + P([97, 9767], [3], 0, 2, 1, [0, 1]) + P([94567], 2, 0, 2, 1, [0, 1]) + P([93], 1, 3, 0, 0, [0, 1]) + P([912], 2, 0, 2, 1, [0, 1], 2)),
    J("h_c09_quote", P([0, 1, 2])),
], ["c09 streamed", "c09 sized", "c09 unrepresentable name"],
    "up to five fields of seven kinds (text, streams with and without filename/type, files with four kinds of extension, values larger than the copy buffer); up to 3 (thorough 6) symbolic content bytes per field, up to 2 (3) symbolic characters in names and filenames, "
    "streams delivering in symbolic pieces, one (streamed and sized) short transport write at a symbolic place; names with a quote or line break in h_c09_quote",
    CLIENT_ASSUME, "contents containing the random boundary")

check("C10", [
    J("h_c10", P([9, 90, 91, 93, 9012, 9300], [0, 1, 2], 24, [0, 1]) + P([90, 91, 93, 9010, 9300, 9030, 9102], [0, 1, 2], 24, 0, [9010, 9100, 9001, 9000]) + P([90, 91, 93, 9010, 9102], [0, 1, 2], 24, 0, [9010, 9000], 9), P([90, 9013], [0, 1, 2], 24, 2)),
], ["c10 framed"], "no, one or three fields, through the streaming, the buffered and the prepared client; the words of the random source arbitrary, with up to 1 (thorough 2) of them rejected by rand's alphanumeric sampling", CLIENT_ASSUME, "random sources on which rand rejects more samples")

check("C11", [
    J("h_c09", P([9, 90, 9013, 9300, 96, 97], 2, 0, [0, 2], [0, 1], 1) + P([988888], 1, 0, 0, 0, 1) + P([9030], [9020, 9102], 0, 0, 0, 1), P([9013, 9660], 3, 0, 2, 1, 1)),
    J("h_c12", P([9, 90, 93, 9003, 9330, 906, 901, 9031, 91], [0, 2], 0, [0, 2, 9], 0) + P([988888, 9808], [0, 1], 0, [0, 9], 0) + P([9003, 9330], [9020, 9102, 9001], 0, [0, 9], 0) + P([99, 909], 1, 0, [32, 9, 33], 0) + P(99, 7, 0, [0, 9], 0) + P([90, 93, 9003, 92], [0, 1], 0, [0, 9], 0, 9), P([9003, 9663, 9030], 3, 2, [0, 1, 2, 9], 0)),
], ["c09 sized", "c12 sized", "c12 unsized", "c12 sent"], "up to four fields of all kinds with up to 3 symbolic content bytes (and values of 1 and 9 KB), sent buffered, prepared and read, or prepared and sent", CLIENT_ASSUME, "files whose length changes while they are sent")

check("C12", [
    J("h_c12", P([9, 90, 91, 93], 3, 0, [0, 1, 2, 3], 0) + P([901, 9012, 9130, 945], 2, [0, 2], [0, 2, 3], 0) + P([9012], 2, 0, range(4, 9), 0) + P([91, 912], 2, 2, [0, 2], 1) + P([96, 97, 9013], 1, 0, [0, 3, 9], 0)
      + P([9, 90, 91, 93, 9013], [0, 1], 0, [30, 31, 33], 0) + P([930, 901], [910, 901, 900], 0, [30, 33], 0) + P([9130], [9010, 9001, 9200], 0, [30, 9], 0) + P([988888], 1, 0, [0, 9], 0) + P([9, 901, 9130, 99], 1, 0, [34, 35], 0) + P([97, 99], 1, 0, [32, 33], 0) + P([97, 99], 7, 0, [0, 9, 33], 0) + P([900, 911, 933, 9000, 9550, 9110], [0, 1], 0, [0, 9], 0, 8) + P([90, 91, 92, 93, 9013], [0, 1], 0, [0, 9, 33], 0, 9),
      P([9012, 9133, 9945], 3, [0, 2], [0, 1, 2, 3, 9], 0) + P([9012], 2, 2, range(10, 24), 0) + P([912, 9121], 2, 2, [1, 2, 9], 1)),
], ["c12 sized", "c12 unsized", "c12 sent"], "up to four fields of all kinds, with names of their own or all with one name, up to 3 symbolic content bytes each; read with 64-byte, 1-byte, cycling and symbolic buffer sizes, and empty buffers, at various positions; streams delivering symbolic pieces, with up to one interruption each", CLIENT_ASSUME, "more than three symbolic read sizes")

check("C13", [
    J("h_c13", P([901, 90, 93], [1, 2], 0, 0) + P([90, 91], 0, 0, 0) + P([901], [1, 2], 0, 1) + P([912], [0, 1, 2], 1, 0) + P([903, 912], [0, 1, 2], [2, 3], [0, 1]) + P([9, 90, 931], [0, 1, 2], [4, 5, 6], 0) + P([930, 913], [0, 1, 2], [7, 8, 9, 10], 0) + P([930, 93, 9030, 9103, 933], [0, 1], [9, 10], [0, 1], 1) + P([90, 97, 99], [0, 1, 2], [0, 1, 2], 0),
      P([901], 0, 0, 1) + P([9012], [1, 2], 0, 1) + P([9103, 9213], [0, 1, 2], [1, 2, 3, 7, 8], 1)),
], ["c13 success", "c13 failure", "c13 goes on", "c13 field named"], "up to three fields; one fault of each of eleven kinds (interrupted source or transport, hard source error, hard transport error, zero-length write, refused headers, unopenable stream, failing finish, file read error, interrupted and short file reads, missing file, unopenable file) at every place it can strike, with short writes at symbolic places; streamed requests also go on without the file that failed; streaming, buffered and prepared client",
    CLIENT_ASSUME, "more than one fault of a kind per source")

SAVE_ASSUME = SERVER_ASSUME + ["files live in the in-memory model of the file system (libc's calls are replaced; std's file code is the real one)", "the random source is a fixed sequence, except where file-name collisions are examined"]

check("C14", [
    J("h_save", P(14, 3, 3, [0, 2], 0, 0, 0, 0) + P(14, 3, 0, [0, 1], 1, 0, 0, 0) + P(14, 3, 4, [0, 1, 2], 0, [1, 2, 4, 13, 24, 33], [0, 2, 5], 0) + P(14, 3, 2, 0, 2, [3, 23], 0, 0) + P(14, 2, 5, [0, 2], 0, [41, 43], 0, 0) + P(14, 2, 6, 0, 0, [0], [0, 6], 0) + P(14, 3, 3, [10, 22], 0, 0, [0, 1], 0) + P(14, 3, 4, [10, 20], 8, 12, [0, 1], 0)
      + P(14, 3, [0, 4], 0, 8, [0, 3, 12, 33], [0, 1], 0) + P(14, 2, 5, 0, 8, 33, 0, 0) + P(14, 1, 7, 0, [0, 8], 0, [1, 2, 5], 0),
      P(14, 1, 5, 0, 0, [31, 33], [1, 2, 5], 0) +       P(14, 6, 3, [0, 1, 2], 0, 0, 0, 0) + P(14, 5, 4, [0, 1, 2], 0, range(1, 41), [0, 2, 5], 0) + P(14, 4, 2, [0, 1], 0, [3, 23], 0, 0) + P(14, 3, 4, 0, 8, range(1, 41), 0, 0)),
    J("h_entries", P(14, [9021, 9102], 1, [1, 2], 0, [0, 1], [0, 14], 0, 0, [0, 1]) + P(14, [9021], 1, 1, [10, 20], 0, 0, 0, 0, 0), P(14, [90213, 92102, 9522], 2, 0, [0, 2], 1, [0, 14], 1, 0, [0, 1])),
], ["save complete", "size limit", "write_to complete", "write_to size limit", "request size limit", "request saved", "saved file", "saved text"],
    "size limit and memory threshold arbitrary 64-bit numbers; single fields of up to 3 (thorough 6) symbolic bytes alone or between 1 KB or 9 KB runs, arriving at once or in pieces of 1, 3, 7, 64, 700 bytes after a first read ending at several offsets, saved with each policy to a directory, path, temporary file or writer; requests of up to four fields", SAVE_ASSUME, "fields larger than 18 KB (the copy loop has no state but the byte count, which the arbitrary limits exercise)")

check("C15", [
    J("h_save", P(15, 3, 3, [0, 1, 2], [0, 1, 2, 3, 4], 0, [0, 1], 0) + P(15, 3, 0, [0, 2], 0, 0, [0, 1, 2, 5], 0) + P(15, 3, 4, [0, 2], 0, [1, 3, 14, 33], [0, 1, 2], 0) + P(15, 3, 2, [0], 0, [3, 24], [0, 1], 0) + P(15, 2, 5, [0, 2], 0, [41], [0, 1], 0) + P(15, 2, 6, [0, 2], 0, 0, 6, 0) + P(15, 3, 3, [10, 22], [0, 4], 0, [0, 1], 0) + P(15, 2, 6, [30, 32, 34], 0, 0, 6, 0) + P(15, 2, 4, [11, 20], 0, 13, [0, 2], 0),
      P(15, 5, 3, [0, 1, 2], [0, 1, 2, 3, 4], 0, [0, 1], 0) + P(15, 4, 0, [0, 2], 0, 0, [0, 1, 2, 5], 0) + P(15, 5, 4, [0, 1, 2], 0, range(1, 41), [0, 1, 2], 0) + P(15, 4, 2, 0, 0, [3, 24], 0, 0)),
    J("h_entries", P(15, [9021, 935], 1, 1, [0, 2], [0, 1], [0, 1, 3, 4, 14], 0, 0, 0) + P(15, [9021], 1, 1, [10, 22], 0, 0, 1, 0, 0) + P(15, [9016], 1, 1, [30, 32], 0, 6, 0, 0, 0), P(15, [90213, 9452], 2, 0, [0, 2], [0, 2], [0, 1, 14], 0, 0, 0)),
], ["save complete", "saved file", "saved text", "saved bytes", "size limit", "request saved"],
    "memory threshold and size limit arbitrary 64-bit numbers (and 0, 10 KB, none), contents and arrival as in C14, the three text policies, all destinations; the file system before and after is compared", SAVE_ASSUME, "as in C14")

check("C16", [
    J("h_save", P(16, 3, 0, [0, 1, 2], 0, 0, [3, 1, 0], 0) + P(16, 4, 0, [0, 1], 0, 0, 3, 0) + P(16, 3, 2, [0, 1], 0, [2, 3, 12, 13, 23], [3, 1], 0) + P(16, 4, 2, [0, 1], 0, [2, 3, 4], 3, 0) + P(16, 3, 1, [0, 1], 0, [2, 3, 13], 3, 0) + P(16, 3, 0, [10, 11, 12, 20, 21, 22], 0, 0, 3, 0) + P(16, 3, range(8, 13), [0, 1], 0, 0, 3, 0),
      P(16, 5, 0, [0, 1, 2], 0, 0, 3, 0) + P(16, 4, 2, [0, 1], 0, range(1, 41), [3], 0) + P(16, 4, 2, [0, 1], 0, [2, 14], [0, 1], 0) + P(16, 4, 1, [0, 1], 0, range(1, 31), 3, 0)),
    J("h_entries", P(16, [9015, 9341], 1, 1, [0, 1, 2], [0], [3, 1], 0, 0, 0) + P(16, [9015], 1, 1, [11, 22], 0, 3, 0, 0, 0) + P(16, [9078, 9870], 1, 1, [0, 1, 2], 0, [3, 1], 0, 0, 0)),
], ["saved text", "saved bytes", "utf8 error", "save complete", "request saved"],
    "contents with up to 4 (thorough 5) arbitrary bytes, alone or after and between 1 KB of ASCII, with the end of a read at any of them; thresholds and limits arbitrary or unlimited; try, force and ignore; fields of text and other types in whole requests", SAVE_ASSUME, "longer stretches of non-ASCII text")

check("C17", [
    J("h_save", P(17, 3, 0, [0, 2], [0, 2], 0, [1, 3, 4], 0) + P(17, 3, 2, [0, 2], 0, [2, 3, 14, 33], [1, 3, 4], 0) + P(17, 2, 5, 0, 0, [31, 33], [3, 4, 6], 0) + P(17, 1, 7, [0, 2], 0, [0, 43], [3, 4, 6], 0) + P(17, 2, [3, 4], 0, 4, [0], [0, 4, 3], [12])),
    J("h_entries", P(17, [901, 934, 952, 9010], 1, 0, [0, 2], [0, 1], [1], 0, 0, 0) + P(17, [90213], 2, 1, 0, [1, 2, 3], [3, 4], 0, 0, 0) + P(17, [91, 94, 90], 3, 0, 0, 0, 4, 0, 0, 0) + P(17, [9012, 9078], 1, 3, 0, 0, 1, 0, 0, 0),
      P(17, [9012, 9345, 9020], 2, 0, [0, 2], [0, 1], [1, 14], 0, 0, 0) + P(17, [901234], 1, 0, 0, 1, [14], 0, 0, 0)),
], ["save complete", "request saved", "saved file", "saved text"],
    "requests of up to four (thorough five) fields of six kinds under up to three names (also the empty one) in every combination, up to 3 symbolic content bytes each, in memory and in files, thresholds arbitrary; read back by 3-byte reads, fill_buf/consume and read_to_end; single fields of up to 3 arbitrary bytes, and single larger fields as in C14", SAVE_ASSUME, "more fields")

check("C18", [
    J("h_entries", P(18, [9, 90, 901, 9010, 93415], 1, 1, 0, [0, 1], 3, 1, 0, [0, 1]) + P(18, [901, 9000], 1, 0, 0, 0, 3, 1, 0, 0) + P(18, [9021], 1, 1, 0, 0, [0, 14], 1, 0, [0, 1]) + P(18, [901], 1, 1, 0, 0, 3, 1, [5, 7, 8], [0, 1]) + P(18, [9010], 1, 1, [10, 20], 0, 0, 1, 0, 0),
      P(18, [90123, 9999999], 1, 0, 0, 0, 3, 1, 0, [0, 1]) + P(18, [901234501], 1, 1, 0, 0, 3, 1, 0, [0, 1])),
    J("h_recount", P([0, 1, 2, 249, 250, 251, 254, 300])),
], ["count limit", "request saved", "resumed", "pre-existing entries"],
    "the count limit an arbitrary 32-bit number (or none); requests of up to five (thorough nine) fields with distinct, repeated and empty names; resumed or continued after the limit; entries which hold fields already, also after some were removed or added by hand", SAVE_ASSUME, "more than nine fields")

check("C19", [
    J("h_save", P(19, 3, 3, [0, 2], [0, 1], 0, [4, 0], [1, 2, 3, 4]) + P(19, 3, 4, [0, 1], [0, 1], [1, 33], [0, 5], [1, 2, 3, 4]) + P(19, 3, 4, [0, 2], [0], [13], [0, 5], [1, 3, 4]) + P(19, 2, 4, [0, 1, 2], 1, 13, [0, 5], 2) + P(19, 2, 4, [0, 1, 2], 0, [2, 23], [0, 4], 5) + P(19, 2, 4, [0, 1], 0, [33], [1, 4], 6) + P(19, 1, 5, 0, 0, 43, 4, 1) + P(19, 1, 5, 0, 0, 43, [1, 2], [1, 5]) + P(19, 1, 7, 0, 0, 0, 4, 1) + P(19, 1, 7, 0, 0, 0, 3, [1, 2])
      + P(19, 2, [3, 4], 0, 8, [0, 12, 33], [0, 1], [1, 2, 3, 4]) + P(19, 2, 3, 0, 8, [0], 0, [5]) + P(19, 2, 4, 0, 8, [12, 33], 0, [5, 6]),
      P(19, 3, 4, [0, 1, 2], 1, range(1, 41), [0, 5], [1, 2, 3, 4]) + P(19, 1, 5, 0, 0, 43, 4, 2) + P(19, 2, 4, [0, 1, 2], 0, [2, 12, 13, 23], [0, 1, 2, 4], [5, 6])),
    J("h_entries", P(19, [902, 920], 1, 1, 0, [0, 1, 2], [0, 4], 0, [1, 2, 3, 4], [0, 1]) + P(19, [902, 9010], 1, 1, 0, [0, 1], [1], 0, [5, 6, 7, 8], [0, 1]),
      P(19, [9021, 9102], 2, 0, [0, 2], [0, 1], 14, 0, [1, 2, 3, 4], [0, 1]) + P(19, [90123], 1, 1, 0, 0, 14, 0, [5, 6, 7, 8], [0, 1])),
], ["fault reported", "error reported", "save complete", "write_to fault", "write_to error", "request fault", "request save error", "request saved"],
    "one fault of each kind at every place: no space, failing open, failing mkdir, interrupted and short writes (to files and to the caller's writer, also zero-length writes), hard and interrupted transport reads, bodies cut short anywhere; single fields and whole requests, thresholds and limits arbitrary", SAVE_ASSUME, "several hard faults in one save; failing close and fsync (std ignores the first, the code does not call the second)")

check("C20", [
    J("h_save", P(20, 2, 3, [0, 2], [0, 1, 2, 3, 4, 5, 6, 7], 0, [4, 0], 0) + P(20, 2, 3, [0, 2], 4, 0, [4, 0], 11) + P(20, 2, 3, 0, 0, 0, [4, 0], 10) + P(20, 2, 4, [0], [0, 1, 2], [3, 13], 0, [0, 1, 3, 4]) + P(20, 2, 4, 0, 4, 3, 0, 11) + P(20, 2, 3, 0, 4, 0, [0, 4], 13),
      P(20, 2, 4, [0, 1, 2], [0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 13], [0, 1], [0, 1, 3, 4, 11])),
    J("h_entries", P(20, [902, 9201], 1, 1, 0, [0, 1, 2, 3], [0, 4], 0, 0, 0) + P(20, [902], 1, 1, 0, [0, 1, 2, 3], 4, 0, [1, 3, 4], 0), P(20, [9021, 95241], 1, 0, [0, 2], [0, 1, 2, 3], [0, 4], 1, 0, 0)),
], ["saved file", "temporary removed", "kept", "deleted", "save complete", "request saved"],
    "single saves to a directory, nested path, temporary file, file name, relative path, relative and empty directory, and onto an existing file; random file names arbitrary with one of them taken already; whole requests with hostile filenames saved to temporary and permanent directories, then dropped, kept, deleted or taken over; also with failing writes, opens and mkdirs; the file system before and after is compared", SAVE_ASSUME, "files changed by other processes during the save")

check("C21", [
    J("h_save", P(21, 3, 3, [0, 1, 2], 0, 0, [0, 1], 0) + P(21, 3, 0, [0, 1], 0, 0, [0, 3], 0) + P(21, 3, 4, [0, 1, 2], 0, [1, 3, 13, 33], [0, 5], [0, 1, 3]) + P(21, 3, 2, [1], 0, [2, 13], [0], 0) + P(21, 2, 4, 0, 0, [2, 23], 0, 5) + P(21, 2, 4, 0, 8, [0, 3, 33], 0, [0, 1, 3])),
    J("h_entries", P(21, [9021, 9202, 9010], 1, 1, 0, [0, 1], [0, 14], 1, 0, [0, 1]) + P(21, [902, 9010], 1, 1, 0, 0, [1], 0, [1, 3, 5, 7], [0, 1]),
      P(21, [90213, 92020], 1, 0, [0, 2], 0, [0, 14], 1, 0, [0, 1]) + P(21, [9021, 9010], 2, 0, 0, 0, [1], 0, [1, 3, 5, 7], [0, 1])),
], ["resumed", "count limit", "request size limit", "partial field has data", "request fault"],
    "requests of up to three (thorough five) fields stopped by an arbitrary count limit, arbitrary size limit, failing write or open, or failing transport, then continued by finishing the returned field by hand or keeping it, and resuming without limits; single fields likewise", SAVE_ASSUME, "several stops in one request")

check("C22", [
    J("h_result", [(0,)]), J("h_entry_result", [(0,)]), J("h_entries_result", P(range(6))),
], ["save result converted", "entry result converted", "request result converted", "partial kept"],
    "every variant of save and entry results, arbitrary 64-bit payloads, I/O errors of five kinds, arbitrary OS codes up to 255 and a custom error; requests of three fields stopped in every way", SAVE_ASSUME, "whether into_result_strict() fails for limits (the documentation says partial results are errors, the code returns the data; both accepted); panicking conversions on the wrong variant")

check("C23", [
    J("h_mock_write", P([1, 2, 3, 4], 0, 0) + P(3, 2, 0) + P([0, 2], 1, 1) + P(3, [4094, 8191], 0)), J("h_mock_read", P([0, 1], 4) + P(2, 3) + P(3, 2), P(3, 3) + P(2, 5)), J("h_mock_client", P([0, 3])),
    J("h_tee", P(4, [0, 1, 2], 0, 0, 0, [0, 1]) + P(4, 1, 2, 0, 1, 0) + P(3, 1, 1, 1, 1, 1) + P(5, 1, 0, 0, 0, 0), P(6, [0, 1, 2], 0, 0, 0, [0, 1]) + P(5, 2, 2, 1, 1, 0)),
], ["mock buffer written", "mock request read", "mock request opened", "tee written"],
    "up to 4 (thorough 4) symbolic bytes through the mock buffer and 3 out of the mock request, every split by the caller, random words arbitrary (six 64-bit draws, rejected ones included); the tee with up to 5 (thorough 6) bytes with and without line breaks, short writes of stdout and of the wrapped writer at every place, errors and interruptions of the wrapped writer", SAVE_ASSUME, "failing standard output; longer transfers (each call is independent of earlier ones except through the random words)")


WEB_ASSUME = SERVER_ASSUME + ["the frameworks' own parsers are executed as they are (hyper 0.10, mime 0.2, iron, nickel), except that tiny_http's own thread and socket code is not run: a copy of that crate which only exports its request constructor is linked"]

check("C24", [
    J("h_web_type", P(range(5), range(4)), web=True),
    J("h_web_switch", P([0, 1]), web=True),
    J("h_web_param", P(range(4), range(15), 5, [0, 1]) + P(4, range(18), [5, 8], 0) + P(4, range(18), 5, 1), P(range(4), range(15), 6, 0) + P(4, range(18), 16, 0), web=True),
    J("h_web_apply", P([1, 4], [0, 1]), P(8, [0, 1]), web=True),
    J("h_web_round", P(2, range(5), [0, 1]), P(4, range(5), [0, 1]), web=True),
], ["recognised", "not multipart", "body read", "headers applied", "method refused", "head sent", "sent and received", "multipart handler", "other handler"],
    "requests parsed by hyper (by value and by reference), iron, nickel and tiny_http: eleven media types and one with an arbitrary byte at an arbitrary place, nine methods and four arbitrary letters, 15 (tiny_http 18) orders and forms of parameters with boundaries of 5 (tiny_http 5 and 8, thorough 6 and 16) arbitrary token characters (any boundary characters when quoted); "
    "the client's headers for five methods, four lengths and boundaries of up to 4 (thorough 8) arbitrary token characters; requests sent through hyper's client in five ways and read with hyper's server, 2 (thorough 4) arbitrary content bytes per field",
    WEB_ASSUME, "content types which hyper's parser itself refuses or truncates (parameters after a quoted one, spaces around =, quoted values beginning with a non-token character); unquoted boundaries with characters outside letters, digits and -_.+")

check("C25", [
    J("h_intercept", P([10, 11, 12, 110, 111, 123, 1021], 2, 1, [0, 1, 2], [0, 1, 2, 3], 0, 0, 0) + P([1102, 10210], 1, 0, [0, 1], 0, 0, 0, 0) + P([110, 1021], 1, 1, [0, 1], 3, [0, 1, 2], [1, 2, 3], 0) + P([112, 1120], 2, 1, [0, 1], [11, 13], [0, 1, 2], 0, [0, 1, 2, 3, 4])
      + P([160, 116], 1, 1, [0, 1], 3, [0, 1, 2], 0, [0, 1, 2, 3, 4]) + P([16], 1, 1, [0, 1, 2], [0, 1], 0, 0, [0, 1]) + P([110, 12], 1, 1, [0, 1], 3, 3, 0, [0, 4]) + P([110, 112, 102], 3, 1, [0, 1], [11, 12, 13], 0, 2, 0),
      P([11021, 10213], 1, 0, [0, 1], 0, 0, 0, 0) + P([110, 121], 4, 1, [0, 1], [0, 1], [0, 1, 2], 0, 0) + P([1621], 2, 1, [0, 1], [1, 3], [0, 1], 0, [1, 2, 3, 4]), web=True),
], ["not multipart", "accepted", "rejected", "truncated", "error"],
    "requests of up to three (thorough four) fields of seven kinds under equal and different names, up to 2 (thorough 4) symbolic content bytes each, in memory and (10 KB) on disk; size limit and count limit arbitrary, set or default; throw, continue and default; temporary directory unset, existing and missing; requests of other methods and media types; bodies cut anywhere; failing writes, opens and mkdirs", WEB_ASSUME + SAVE_ASSUME[2:], "the default limits being exceeded by real data of 2 MB; more fields")
