//! Server-side reading: C01..C06.
use crate::prim::*;
use crate::util::*;
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntryResult};
use std::io::{self, BufRead, Read};

pub const BNDS: [&str; 6] = ["X", "AB", "-", "a-a", "--", "xyzzy12"];
const CD: &[u8] = b"\r\nContent-Disposition: form-data; name=\"";

/// `--B CRLF headers CRLF CRLF`
pub fn head(b: &[u8], name: &[u8]) -> Vec<u8> { cat(&[b"--", b, CD, name, b"\"\r\n\r\n"]) }
/// one part ready to be followed by the next delimiter
pub fn part(b: &[u8], name: &[u8], c: &[u8]) -> Vec<u8> { cat(&[&head(b, name), c, b"\r\n"]) }
pub fn closing(b: &[u8]) -> Vec<u8> { cat(&[b"--", b, b"--"]) }
pub fn delim(b: &[u8]) -> Vec<u8> { cat(&[b"--", b]) }
pub fn filler(n: usize) -> Vec<u8> { vec![b'f'; n] }
/// content of `n` symbolic bytes that does not form the delimiter, also not together with the CRLF and delimiter after it
pub fn content(n: usize, b: &[u8]) -> Vec<u8> {
    let c = sym_bytes(n);
    let d = delim(b);
    assume(!occurs(&c, &d));
    c
}

/// ways a caller reads a field to its end
pub fn read_all<M: multipart::server::ReadEntry>(f: &mut MultipartData<M>, style: usize, limit: usize) -> io::Result<Vec<u8>> {
    let mut v = Vec::with_capacity(64);
    let mut steps = 0;
    let mut free = 4; // symbolic sizes before falling back to fixed ones
    if style == 0 { f.read_to_end(&mut v)?; return Ok(v); }
    loop {
        steps += 1;
        if steps > limit + 2 { fail("reading a field does not make progress"); }
        match style {
            1 | 2 => {
                let mut b = [0u8; 3];
                let n = if style == 1 { 1 } else if free > 0 { free -= 1; 1 + choose(3) } else { 3 };
                let k = f.read(&mut b[..n])?;
                check(k <= n, "read returned more than the buffer holds");
                if k == 0 { return Ok(v); }
                v.extend_from_slice(&b[..k]);
            }
            3 | 4 => {
                let k = {
                    let b = f.fill_buf()?;
                    if b.is_empty() { return Ok(v); }
                    let k = if style == 3 || free == 0 { b.len() } else { free -= 1; let m = if b.len() < 4 { b.len() } else { 4 }; let c = choose(m); if c == 0 { b.len() } else { c } };
                    v.extend_from_slice(&b[..k]);
                    k
                };
                f.consume(k);
            }
            _ => {
                // large buffer reads
                let mut b = [0u8; 64];
                let k = f.read(&mut b)?;
                if k == 0 { return Ok(v); }
                v.extend_from_slice(&b[..k]);
            }
        }
    }
}

fn expect_field<'a, R: Read>(m: &'a mut Multipart<R>, name: &str) -> MultipartField<&'a mut Multipart<R>> {
    match m.read_entry() {
        Ok(Some(f)) => { check(&*f.headers.name == name, "fields are delivered in order under their own names"); f }
        Ok(None) => fail("end reported although a field follows"),
        Err(_) => fail("error reported for a well-formed body"),
    }
}
fn expect_end<R: Read>(m: &mut Multipart<R>) {
    match m.read_entry() {
        Ok(None) => {}
        Ok(Some(_)) => fail("a field was made up"),
        Err(_) => fail("error instead of the end of a well-formed body"),
    }
}
fn expect_content<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>, style: usize, c: &[u8]) {
    match read_all(&mut f.data, style, c.len()) {
        Ok(v) => { observe_bytes(&v); check(v.len() == c.len(), "content has the wrong length"); check(same(&v, c), "content differs"); }
        Err(_) => fail("error while reading a field of a well-formed body"),
    }
    // the end of the field is sticky
    match f.data.fill_buf() { Ok(b) => check(b.is_empty(), "data after the end of a field"), Err(_) => fail("error after the end of a field") }
}

// ---- C01 ------------------------------------------------------------------------------------
/// two symbolic contents in one buffer. p: len1, len2, boundary, style, preamble (1 = CRLF, 2 = a short line, 3 = a long one)
#[no_mangle] pub extern "C" fn h_c01_small() {
    let (l, k, b, st) = (param(0), param(1), BNDS[param(2)].as_bytes(), param(3));
    let (c1, c2) = (content(l, b), content(k, b));
    // what comes before the first delimiter is not part of any field
    let pre: Vec<u8> = match param(4) {
        0 => Vec::new(),
        1 => b"\r\n".to_vec(),
        k => {
            let s = sym_bytes(if k == 2 { 3 } else { 2 });
            let p = cat(&[&vec![b'p'; if k == 2 { 0 } else { 9000 }], &s, b"\r\n"]);
            assume(!occurs(&p[p.len() - 5 + (k - 2).min(1)..], &cat(&[b"--", b])));
            p
        }
    };
    let d = cat(&[&pre, &part(b, b"a", &c1), &part(b, b"b", &c2), &part(b, b"c", b""), &closing(b)]);
    let mut m = Multipart::with_body(Src::new(d), BNDS[param(2)]);
    expect_content(&mut expect_field(&mut m, "a"), st, &c1);
    expect_content(&mut expect_field(&mut m, "b"), st, &c2);
    expect_content(&mut expect_field(&mut m, "c"), st, b"");
    expect_end(&mut m);
    reach("c01 whole body read");
}

/// A field whose start is already buffered (filler) and whose symbolic rest arrives in symbolic pieces,
/// read with a small minimum buffer. p: len, boundary, style, window (how far past the filler the first chunk may end), max later chunk (0 = whole), how many symbolic later chunks
#[no_mangle] pub extern "C" fn h_c01_chunk() {
    let (l, b, st, win, maxc) = (param(0), BNDS[param(1)].as_bytes(), param(2), param(3), param(4));
    let c = content(l, b);
    let h = head(b, b"a");
    let fill = filler(1024);
    let full = cat(&[&fill, &c]);
    let d = cat(&[&h, &full, b"\r\n", &part(b, b"b", b"Q"), &closing(b)]);
    let end1 = h.len() + 1024 + choose(win + 1);
    let s = Src::new(d).first(&[end1]);
    let mut s = if maxc > 0 { s.sym(maxc) } else { s };
    s.nsym = param(5);
    let mut m = Multipart::with_body(s, BNDS[param(1)]);
    {
        let mut f = expect_field(&mut m, "a");
        f.data.set_min_buf_size(0);
        // take the filler first so that later reads see the arrival of the rest
        let mut v = vec![0u8; 1024];
        let mut got = 0;
        while got < 1024 {
            match f.data.read(&mut v[got..]) { Ok(0) => fail("field ended inside the filler"), Ok(n) => got += n, Err(_) => fail("error inside the filler") }
        }
        check(v[0] == b'f' && v[1023] == b'f', "filler differs");
        expect_content(&mut f, st, &c);
    }
    let mut f = expect_field(&mut m, "b");
    expect_content(&mut f, 0, b"Q");
    drop(f);
    expect_end(&mut m);
    reach("c01 chunked body read");
}

/// content spanning the internal 8 KiB buffer, symbolic bytes around the buffer edge.
/// p: symbolic bytes, boundary, style, offset of the symbolic bytes before the edge, which multiple of 8 KiB (0 = 1), kind of filler
#[no_mangle] pub extern "C" fn h_c01_edge() {
    let (l, b, st, off) = (param(0), BNDS[param(1)].as_bytes(), param(2), param(3));
    let c = content(l, b);
    let h = head(b, b"a");
    let at = 8192 * if param(4) > 0 { param(4) } else { 1 } - h.len() - off;
    // 1: line breaks and dashes, 2: delimiters but for the last byte, 3: delimiters without the dashes
    let pat: Vec<u8> = match param(5) { 0 => b"f".to_vec(), 1 => b"\r\n-".to_vec(), 2 => cat(&[b"\r\n--", &b[..b.len() - 1]]), 3 => cat(&[b"\r\n", b, b"\r\n"]), _ => b"\r".to_vec() };
    let mut fill = Vec::with_capacity(at);
    while fill.len() + pat.len() <= at { fill.extend_from_slice(&pat); }
    while fill.len() < at { fill.push(b'f'); }
    let full = cat(&[&fill, &c]);
    if param(5) > 0 { assume(!occurs(&full[at - pat.len() - 4..], &delim(b))); }
    let d = cat(&[&h, &full, b"\r\n", &part(b, b"b", b"Q"), &closing(b)]);
    let mut m = Multipart::with_body(Src::new(d), BNDS[param(1)]);
    {
        let mut f = expect_field(&mut m, "a");
        let v = match read_all(&mut f.data, st, full.len()) { Ok(v) => v, Err(_) => fail("error while reading a field of a well-formed body") };
        observe(v.len() as u64);
        check(v.len() == full.len(), "content has the wrong length");
        check(same(&v[fill.len()..], &c), "content differs");
        check(v[..fill.len()] == fill[..], "filler differs");
    }
    let mut f = expect_field(&mut m, "b");
    expect_content(&mut f, 0, b"Q");
    drop(f);
    expect_end(&mut m);
    reach("c01 edge body read");
}

// ---- C02 ------------------------------------------------------------------------------------
/// what a caller sees: one byte of tag per event plus data
fn log_body(s: Src, b: &str, min: usize, style: usize) -> Vec<u8> {
    let total = s.d.len();
    let mut m = Multipart::with_body(s, b);
    let mut v = Vec::with_capacity(256);
    let mut n = 0;
    loop {
        n += 1;
        if n > 6 { fail("too many entries for this body"); }
        match m.read_entry() {
            Ok(None) => { v.extend_from_slice(b"<end>"); return v; }
            Err(_) => { v.extend_from_slice(b"<err>"); return v; }
            Ok(Some(mut f)) => {
                v.extend_from_slice(b"<f>");
                v.extend_from_slice(f.headers.name.as_bytes());
                v.extend_from_slice(b"|");
                if let Some(x) = f.headers.filename.as_ref() { v.extend_from_slice(x.as_bytes()); }
                v.extend_from_slice(b"|");
                if min != 1024 { f.data.set_min_buf_size(min); }
                match read_all(&mut f.data, style, total) {
                    Ok(c) => { check(c.len() <= total, "more data than the body has"); v.extend_from_slice(&c); v.extend_from_slice(b"</f>"); }
                    Err(_) => v.extend_from_slice(b"<ferr>"),
                }
            }
        }
    }
}
fn template(t: usize, n: usize, b: &[u8]) -> (Vec<u8>, usize) {
    // (body, position where the symbolic part starts)
    let s = sym_bytes(n);
    match t {
        // symbolic tail of a field, then the end of input
        0 => { let p = cat(&[&head(b, b"a"), &filler(1024)]); let q = p.len(); (cat(&[&p, &s]), q) }
        // symbolic gap between a field and a well-formed rest
        1 => { let p = cat(&[&head(b, b"a"), &filler(1024)]); let q = p.len(); (cat(&[&p, &s, b"--", b, CD, b"b\"\r\n\r\nQ\r\n", &closing(b)]), q) }
        // symbolic bytes directly after a delimiter
        2 => { let p = cat(&[&head(b, b"a"), &filler(1024), b"\r\n--", b]); let q = p.len() - 2 - b.len() - 2; (cat(&[&p, &s, b"Content-Disposition: form-data; name=\"b\"\r\n\r\nQ\r\n", &closing(b)]), q) }
        // symbolic header bytes
        3 => { let p = cat(&[&head(b, b"a"), &filler(1024), b"\r\n--", b, b"\r\n"]); let q = p.len() - 2; (cat(&[&p, b"Content-Disposition: form-data; name=\"b\"", &s, b"\r\n\r\nQ\r\n", &closing(b)]), q) }
        // symbolic start of the body
        4 => (cat(&[&s, &part(b, b"a", b"v"), &closing(b)]), 0),
        // symbolic tail of a short body
        _ => { let p = head(b, b"a"); let q = p.len(); (cat(&[&p, &s]), q) }
    }
}
/// the same bytes through two schedules. p: template, symbolic bytes, boundary, window, max chunk of the second schedule, style
#[no_mangle] pub extern "C" fn h_c02() {
    let (t, n, bi, win, maxc, st) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let b = BNDS[bi].as_bytes();
    let (d, q) = template(t, n, b);
    let a = log_body(Src::new(d.clone()), BNDS[bi], 1024, 0);
    let mut s = Src::new(d);
    if q >= 1024 { s = s.first(&[q + choose(win + 1)]); }
    if maxc > 0 { s = s.sym(maxc); s.nsym = 4; }
    let c = log_body(s, BNDS[bi], if q >= 1024 { 0 } else { 1024 }, st);
    observe_bytes(&a[a.len() - 5..]);
    observe(c.len() as u64);
    if same(&a[a.len() - 5..], b"<end>") { reach("c02 clean end"); } else { reach("c02 error end"); }
    check(a.len() == c.len(), "the decoding depends on how the body arrives");
    check(same(&a, &c), "the decoding depends on how the body arrives");
}

/// A long header block through two schedules. p: length of the field name, symbolic bytes in the middle of it, end of the first read relative to 1 KiB (centre), window
#[no_mangle] pub extern "C" fn h_c02_hdr() {
    let (n, k, at, win) = (param(0), param(1), param(2), param(3));
    let s = sym_bytes(k);
    let name = cat(&[&filler(n), &s]);
    let d = cat(&[&head(b"X", &name), b"v\r\n", &part(b"X", b"b", b"Q"), &closing(b"X")]);
    let a = log_body(Src::new(d.clone()), "X", 1024, 0);
    let mut src = Src::new(d).first(&[at + choose(win + 1)]);
    src.piece = param(4);
    let c = log_body(src, "X", 1024, 0);
    observe(a.len() as u64);
    observe(c.len() as u64);
    check(a.len() == c.len(), "the decoding of long headers depends on how the body arrives");
    check(same(&a, &c), "the decoding of long headers depends on how the body arrives");
    if same(&a[a.len() - 5..], b"<end>") { reach("c02 long headers accepted"); } else { reach("c02 long headers rejected"); }
}

// ---- C03 ------------------------------------------------------------------------------------
/// arbitrary bytes, arbitrary calls. p: template (6 = nothing but symbolic bytes), symbolic bytes, boundary (6 = symbolic byte, 7 = empty), calls, max chunk
#[no_mangle] pub extern "C" fn h_c03() {
    let (t, n, bi, calls, maxc) = (param(0), param(1), param(2), param(3), param(4));
    let bs: String = match bi {
        6 => { let c = u8s(); assume(c < 128); String::from_utf8(vec![c]).unwrap() }
        7 => String::new(),
        i => BNDS[i].to_string(),
    };
    let (d, q) = if t == 6 { (sym_bytes(n), 0) } else { template(t, n, bs.as_bytes()) };
    let total = d.len();
    let mut s = Src::new(d);
    if q >= 1024 { s = s.first(&[q + choose(6)]); }
    if maxc > 0 { s = s.sym(maxc); }
    let mut m = Multipart::with_body(s, bs);
    let mut got = 0usize;
    let mut left = calls;
    let mut entries = 0;
    'outer: while left > 0 {
        left -= 1;
        let mut f = match m.read_entry() {
            Ok(Some(f)) => { entries += 1; f }
            Ok(None) => { reach("c03 end"); observe(1); continue }
            Err(_) => { reach("c03 error"); observe(2); continue }
        };
        reach("c03 field");
        while left > 0 {
            left -= 1;
            match choose(6) {
                0 => break,
                1 => { let mut b = [0u8; 2]; if let Ok(k) = f.data.read(&mut b) { check(k <= 2, "read returned more than the buffer holds"); got += k; observe_bytes(&b[..k]); } }
                2 => { let k = match f.data.fill_buf() { Ok(b) => b.len(), Err(_) => 0 }; check(k <= total, "more data than the body has"); let c = [1, 2, usize::MAX][choose(3)]; f.data.consume(c); got += if c < k { c } else { k }; observe(k as u64); }
                3 => { let mut v = Vec::new(); if f.data.read_to_end(&mut v).is_ok() { got += v.len(); observe(v.len() as u64); } }
                4 => { f.data.set_min_buf_size([0, 4096][choose(2)]); }
                _ => { match f.next_entry_inplace() { Ok(Some(_)) => { entries += 1; observe(3) } Ok(None) => observe(4), Err(_) => observe(5) } }
            }
        }
        if left == 0 { break 'outer; }
    }
    check(got <= total, "more data handed out than the body has");
    check(entries <= total, "more fields than bytes");
}
/// drain an arbitrary body with the convenience loops. p: symbolic bytes, template, boundary, how
#[no_mangle] pub extern "C" fn h_c03_drain() {
    let (n, t, bi, how) = (param(0), param(1), param(2), param(3));
    let b = BNDS[bi].as_bytes();
    let (d, q) = if t == 6 { (sym_bytes(n), 0) } else { template(t, n, b) };
    let total = d.len();
    let mut s = Src::new(d);
    if q >= 1024 { s = s.first(&[q + choose(6)]); }
    let mut m = Multipart::with_body(s, BNDS[bi]);
    let mut cnt = 0usize;
    match how {
        0 => { let r = m.foreach_entry(|mut f| { let mut v = Vec::new(); let _ = f.data.read_to_end(&mut v); cnt += 1 + v.len(); }); observe(r.is_ok() as u64); if r.is_ok() { reach("c03 drained"); } else { reach("c03 drain error"); } }
        1 => { let r = m.foreach_entry(|_| { cnt += 1; }); observe(r.is_ok() as u64); if r.is_ok() { reach("c03 drained"); } else { reach("c03 drain error"); } }
        _ => {
            let mut cur = m.into_entry();
            loop {
                cnt += 1;
                check(cnt <= total + 1, "more entries than bytes");
                match cur {
                    ReadEntryResult::Entry(f) => cur = f.next_entry(),
                    ReadEntryResult::End(_) => { reach("c03 drained"); break }
                    ReadEntryResult::Error(_, _) => { reach("c03 drain error"); break }
                }
            }
        }
    }
    check(cnt <= 2 * total + 2, "more data than the body has");
    observe(cnt as u64);
}

// ---- C04 ------------------------------------------------------------------------------------
const MINS: [usize; 5] = [0, 1024, 8192, 8190, 20000];
/// a few arbitrary calls on a field; returns false if the field was read to its end
fn poke<M: multipart::server::ReadEntry>(f: &mut MultipartData<M>, c: &[u8], ops: usize, mins: usize) {
    let mut pos = 0;
    let mut left = ops;
    while left > 0 {
        left -= 1;
        let o = choose(if mins > 0 { 5 } else { 4 });
        match o {
            0 => return,
            1 => {
                let mut b = [0u8; 2];
                // an empty buffer is never filled, and changes nothing
                if choose(2) == 1 { match f.read(&mut []) { Ok(0) => {} _ => fail("an empty buffer was not read as such") } }
                let k = match f.read(&mut b) { Ok(k) => k, Err(_) => fail("error while reading a field of a well-formed body") };
                check(pos + k <= c.len(), "more data than the field has");
                check(same(&b[..k], &c[pos..pos + k]), "content differs");
                check(k > 0 || pos == c.len(), "field ended early");
                pos += k;
            }
            2 => {
                let k = match f.fill_buf() {
                    Ok(b) => { check(pos + b.len() <= c.len(), "more data than the field has"); check(same(b, &c[pos..pos + b.len()]), "content differs"); b.len() }
                    Err(_) => fail("error while reading a field of a well-formed body"),
                };
                check(k > 0 || pos == c.len(), "field ended early");
                // consume nothing, one byte, everything, or more than there is (which is everything)
                let n = [0, if k > 0 { 1 } else { 0 }, k, k + 5][choose(4)];
                f.consume(n);
                pos += if n > k { k } else { n };
            }
            3 => {
                let mut v = Vec::new();
                match f.read_to_end(&mut v) { Ok(_) => {} Err(_) => fail("error while reading a field of a well-formed body") }
                check(pos + v.len() == c.len(), "content has the wrong length");
                check(same(&v, &c[pos..]), "content differs");
                pos = c.len();
            }
            _ => f.set_min_buf_size(MINS[choose(mins)]),
        }
    }
}
/// partial reads of every field, then the next one. p: len1, len2, boundary, ops per field, filler (0 = none) , window, mins
#[no_mangle] pub extern "C" fn h_c04() {
    let (l, k, b, ops, fl, win, mins) = (param(0), param(1), BNDS[param(2)].as_bytes(), param(3), param(4), param(5), param(6));
    let (s1, c2) = (content(l, b), content(k, b));
    let c1 = cat(&[&filler(fl), &s1]);
    let h = head(b, b"a");
    let d = cat(&[&h, &c1, b"\r\n", &part(b, b"b", &c2), &part(b, b"c", b"last"), &closing(b)]);
    let mut s = Src::new(d);
    if fl >= 1024 { s = s.first(&[h.len() + fl + choose(win + 1)]); }
    let mut m = Multipart::with_body(s, BNDS[param(2)]);
    {
        let mut f = expect_field(&mut m, "a");
        if fl > 0 {
            f.data.set_min_buf_size(0);
            if choose(2) == 1 {
                let mut v = vec![0u8; fl];
                match f.data.read_exact(&mut v) { Ok(_) => {} Err(_) => fail("error inside the filler") }
                poke(&mut f.data, &s1, ops, mins);
            }
        } else { poke(&mut f.data, &c1, ops, mins); }
        match choose(2) {
            0 => {
                drop(f);
                let mut f = expect_field(&mut m, "b");
                poke(&mut f.data, &c2, if fl > 0 { 1 } else { ops }, 0);
            }
            _ => {
                match f.next_entry_inplace() { Ok(Some(_)) => {} Ok(None) => fail("end reported although a field follows"), Err(_) => fail("error reported for a well-formed body") }
                check(&*f.headers.name == "b", "next entry has the wrong headers");
                poke(&mut f.data, &c2, if fl > 0 { 1 } else { ops }, 0);
            }
        }
    }
    let mut f = expect_field(&mut m, "c");
    expect_content(&mut f, 0, b"last");
    drop(f);
    expect_end(&mut m);
    reach("c04 all fields seen");
}
/// minimum buffer sizes around the capacity of the internal buffer. p: symbolic bytes, boundary, which minimum, filler before, bytes consumed before re-tuning relative to the filler
#[no_mangle] pub extern "C" fn h_c04_min() {
    let (l, b, min, fl, back, style) = (param(0), BNDS[param(1)].as_bytes(), MINS[param(2)], param(3), param(4), param(5));
    let s1 = content(l, b);
    let c1 = cat(&[&filler(fl), &s1]);
    let d = cat(&[&head(b, b"a"), &c1, b"\r\n", &part(b, b"b", b"Q"), &closing(b)]);
    let mut m = Multipart::with_body(Src::new(d), BNDS[param(1)]);
    {
        let mut f = expect_field(&mut m, "a");
        if param(6) == 0 { f.data.set_min_buf_size(min); }
        let mut v = vec![0u8; fl - back];
        match f.data.read_exact(&mut v) { Ok(_) => {} Err(_) => fail("field ended early or failed inside the filler") }
        if param(6) == 1 { f.data.set_min_buf_size(min); }
        let rest = match read_all(&mut f.data, style, c1.len()) { Ok(v) => v, Err(_) => fail("error while reading a field of a well-formed body") };
        check(rest.len() == back + l, "content has the wrong length");
        check(same(&rest[..], &c1[fl - back..]), "content differs");
    }
    let mut f = expect_field(&mut m, "b");
    expect_content(&mut f, 0, b"Q");
    drop(f);
    expect_end(&mut m);
    reach("c04 re-tuned");
}

// ---- C05 ------------------------------------------------------------------------------------
/// A well-formed body cut at any byte. p: len1, len2, boundary, style (9 = skip), filler, later piece size, epilogue bytes
#[no_mangle] pub extern "C" fn h_c05() {
    let (l, k, b, st, fl, piece, epi) = (param(0), param(1), BNDS[param(2)].as_bytes(), param(3), param(4), param(5), param(6));
    let (s1, c2) = (content(l, b), content(k, b));
    let c1 = cat(&[&filler(fl), &s1]);
    let h1 = head(b, b"a");
    let p1 = cat(&[&h1, &c1, b"\r\n"]);
    let p2 = part(b, b"b", &c2);
    let full = p1.len() + p2.len() + b.len() + 4;
    let mut d = cat(&[&p1, &p2, &closing(b)]);
    if epi == 99 { d.extend_from_slice(&cat(&[b"\r\n", &part(b, b"z", b"Z"), &closing(b)])); } else { d.extend_from_slice(&sym_bytes(epi)); }
    let lo = if fl > 0 { h1.len() + fl } else { 0 };
    let cut = if epi > 0 { d.len() } else { lo + choose(full + 1 - lo) };
    d.truncate(cut);
    let mut s = Src::new(d);
    if fl > 0 { s = s.first(&[lo]); s.piece = piece; } else if piece > 0 { s.piece = piece; }
    let mut m = Multipart::with_body(s, BNDS[param(2)]);
    let complete = cut >= full;
    let mut n = 0;
    let ended = loop {
        match m.read_entry() {
            Ok(None) => break true,
            Err(_) => break false,
            Ok(Some(mut f)) => {
                let c = match n { 0 => { check(&*f.headers.name == "a", "field a"); &c1 } 1 => { check(&*f.headers.name == "b", "field b"); &c2 } _ => fail("a field was made up") };
                n += 1;
                if st == 9 { continue; }
                if fl > 0 { f.data.set_min_buf_size(0); }
                if let Ok(v) = read_all(&mut f.data, st, c.len()) {
                    observe(v.len() as u64);
                    check(v.len() <= c.len(), "more data than the field has");
                    check(same(&v, &c[..v.len()]), "content is not a prefix");
                    // once the delimiter after it has arrived, a field is delivered whole
                    let del = if n == 1 { p1.len() + b.len() + 2 } else { full - 2 };
                    check(v.len() == c.len() || cut < del, "field ended early");
                }
            }
        }
    };
    check(ended == complete, if complete { "error instead of a clean end" } else { "clean end reported for a truncated body" });
    if ended { reach("c05 clean end"); check(n == 2, "fields are missing"); } else { reach("c05 truncated"); }
    // and it stays that way
    let mut i = 0;
    while i < 3 {
        match m.read_entry() {
            Ok(Some(_)) => fail("a field after the end"),
            Ok(None) => check(complete, "clean end reported for a truncated body"),
            Err(_) => check(!complete, "error after the end was reported"),
        }
        i += 1;
    }
    match m.foreach_entry(|_| fail("a field after the end")) { Ok(()) => check(complete, "clean end reported for a truncated body"), Err(_) => check(!complete, "error after the end was reported") }
}
/// the field handle stays usable after the end and yields nothing. p: epilogue bytes, boundary
#[no_mangle] pub extern "C" fn h_c05_handle() {
    let (e, b) = (param(0), BNDS[param(1)].as_bytes());
    let d = cat(&[&part(b, b"a", b"v"), &closing(b), &sym_bytes(e), &part(b, b"z", b"Z"), &closing(b)]);
    let mut m = Multipart::with_body(Src::new(d), BNDS[param(1)]);
    let mut f = expect_field(&mut m, "a");
    let mut i = 0;
    while i < 2 {
        match f.next_entry_inplace() { Ok(None) => {} Ok(Some(_)) => fail("a field after the end"), Err(_) => fail("error instead of a clean end") }
        let mut v = Vec::new();
        match f.data.read_to_end(&mut v) { Ok(_) => check(v.is_empty(), "data from behind the closing delimiter"), Err(_) => {} }
        match f.data.fill_buf() { Ok(b) => check(b.is_empty(), "data from behind the closing delimiter"), Err(_) => {} }
        i += 1;
    }
    reach("c05 handle after end");
}

// ---- C06 ------------------------------------------------------------------------------------
/// transport faults at any read. p: symbolic bytes, boundary, style (9 = skip), piece size, interrupted budget, error budget, filler, start of faults (0 = from the beginning)
#[no_mangle] pub extern "C" fn h_c06() {
    let (l, b, st, piece, ei, er, fl) = (param(0), BNDS[param(1)].as_bytes(), param(2), param(3), param(4), param(5), param(6));
    let s1 = content(l, b);
    let c1 = cat(&[&filler(fl), &s1]);
    let h1 = head(b, b"a");
    let d = cat(&[&h1, &c1, b"\r\n", &part(b, b"b", b"QQ"), &part(b, b"c", b"R"), &closing(b)]);
    let mut s = Src::new(d);
    if fl > 0 { s = s.first(&[h1.len() + fl]); }
    s.piece = piece;
    s.eintr = ei;
    s.err = er;
    if ei > 0 { s.kinds = 2; }
    let budget = ei + er;
    if st >= 4 && st < 9 { return c06_owned(Multipart::with_body(s, BNDS[param(1)]), &c1, budget, fl > 0); }
    let mut m = Multipart::with_body(s, BNDS[param(1)]);
    let mut next = 0; // the next field that may appear
    let mut errs = 0;
    loop {
        let before = std::borrow::Borrow::<Src>::borrow(&m).faults;
        let mut lost = 0;
        match m.read_entry() {
            Err(_) => {
                errs += 1;
                check(errs <= budget, "an error without a fault");
                check(std::borrow::Borrow::<Src>::borrow(&m).faults > before, "an error without a fault");
                reach("c06 fault between fields");
                continue;
            }
            Ok(None) => { check(next == 3, "end reported although a field follows"); break; }
            Ok(Some(mut f)) => {
                let i = match &*f.headers.name { "a" => 0, "b" => 1, "c" => 2, _ => fail("a field was made up") };
                check(i >= next, "a field was repeated");
                check(i <= next, "a field was skipped");
                next = i + 1;
                let c: &[u8] = match i { 0 => &c1, 1 => b"QQ", _ => b"R" };
                if st == 9 { continue; }
                if fl > 0 { f.data.set_min_buf_size(0); }
                let mut v = Vec::with_capacity(c.len() + 8);
                loop {
                    let r = match st {
                        0 => f.data.read_to_end(&mut v),
                        1 => { let mut x = [0u8; 1]; let r = f.data.read(&mut x); if let Ok(k) = r { v.extend_from_slice(&x[..k]); } r }
                        _ => { let r = f.data.fill_buf().map(|x| { v.extend_from_slice(x); x.len() }); if let Ok(k) = r { f.data.consume(k); } r }
                    };
                    match r {
                        Ok(k) => { if k == 0 || st == 0 { break; } check(v.len() <= c.len(), "more data than the field has"); }
                        Err(_) => { lost += 1; check(lost + errs <= budget, "an error without a fault"); reach("c06 fault inside a field"); }
                    }
                }
                observe_bytes(&v[v.len() - v.len() % 16..]);
                check(v.len() == c.len(), "content has the wrong length after a fault");
                check(same(&v, c), "content differs after a fault");
            }
        }
    }
    observe(errs as u64);
    reach("c06 end");
}

/// the same by way of fields which own the request: `next_entry` (style 4), `next_entry_inplace` (5)
fn c06_owned(m: Multipart<Src>, c1: &[u8], budget: usize, small: bool) {
    let mut errs = 0;
    let mut m = m;
    let mut f = loop { match m.into_entry() {
        ReadEntryResult::Entry(f) => break f,
        ReadEntryResult::End(_) => fail("end reported although a field follows"),
        ReadEntryResult::Error(x, _) => { errs += 1; check(errs <= budget, "an error without a fault"); reach("c06 fault between fields"); m = x; }
    } };
    let mut i = 0;
    loop {
        check(&*f.headers.name == ["a", "b", "c"][i], "a field was skipped, repeated or made up");
        let c: &[u8] = match i { 0 => c1, 1 => b"QQ", _ => b"R" };
        if small { f.data.set_min_buf_size(0); }
        let mut v = Vec::with_capacity(c.len() + 8);
        loop { match f.data.read_to_end(&mut v) { Ok(_) => break, Err(_) => { errs += 1; check(errs <= budget, "an error without a fault"); reach("c06 fault inside a field"); } } }
        check(v.len() == c.len(), "content has the wrong length after a fault");
        check(same(&v, c), "content differs after a fault");
        i += 1;
        let mut end = false;
        if param(2) == 5 {
            loop { match f.next_entry_inplace() {
                Ok(Some(_)) => break,
                Ok(None) => { end = true; break }
                Err(_) => { errs += 1; check(errs <= budget, "an error without a fault"); reach("c06 fault between fields"); }
            } }
        } else {
            let mut r = f.next_entry();
            f = loop { match r {
                ReadEntryResult::Entry(g) => break g,
                ReadEntryResult::End(_) => { check(i == 3, "end reported although a field follows"); reach("c06 end"); return; }
                ReadEntryResult::Error(x, _) => { errs += 1; check(errs <= budget, "an error without a fault"); reach("c06 fault between fields"); r = x.into_entry(); }
            } };
        }
        check(end == (i == 3), "end reported although a field follows, or a field after the last one");
        if end { break; }
    }
    observe(errs as u64);
    reach("c06 end");
}

/// The whole request through each of the ways to ask for entries.
/// p: symbolic bytes per field, boundary, way (0 foreach_entry, 1 next_entry, 2 next_entry_inplace, 3 into_inner + into_entry, 4 ReadEntry on a reference, 5 a few by read_entry, then foreach), what is read (0 all, 1 nothing, 2 a byte), cut anywhere?, piece
#[no_mangle] pub extern "C" fn h_ways() {
    let (n, b, way, take, cutting, piece) = (param(0), BNDS[param(1)].as_bytes(), param(2), param(3), param(4), param(5));
    let cs = [content(n, b), content(n, b), content(n, b)];
    let names = ["a", "b", "c"];
    let mut d = Vec::new();
    let mut ends = [0usize; 3]; // where the delimiter after each field ends
    for i in 0..3 { d.extend_from_slice(&part(b, names[i].as_bytes(), &cs[i])); ends[i] = d.len() + 2 + b.len(); }
    d.extend_from_slice(&closing(b));
    let full = d.len();
    let cut = if cutting > 0 { choose(full + 1) } else { full };
    d.truncate(cut);
    let mut s = Src::new(d);
    s.piece = piece;
    let mut m = Multipart::with_body(s, BNDS[param(1)]);
    let mut k = 0usize;
    // one field arrived; false if reading it failed
    fn one<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>, c: &[u8], name: &str, take: usize, whole: bool) {
        check(&*f.headers.name == name, "not the next field");
        check(f.headers.filename.is_none() && f.headers.content_type.is_none(), "headers of another field");
        match take {
            0 => {
                let mut v = Vec::new();
                match f.data.read_to_end(&mut v) { Ok(_) => check(v.len() == c.len() || !whole, "content has the wrong length"), Err(_) => check(!whole, "error while reading a field of a well-formed body") }
                check(v.len() <= c.len(), "more data than the field has");
                check(same(&v, &c[..v.len()]), "content differs");
            }
            2 => {
                let mut x = [0u8; 1];
                match f.data.read(&mut x) { Ok(r) => { check(r <= c.len() && (r == 1) == (c.len() > 0) || !whole, "content has the wrong length"); if r == 1 && c.len() > 0 { check(x[0] == c[0], "content differs"); } } Err(_) => check(!whole, "error while reading a field of a well-formed body") }
            }
            _ => {}
        }
    }
    let ended = match way {
        0 | 5 => {
            if way == 5 {
                let stop = choose(2) + 1;
                while k < stop { match m.read_entry() { Ok(Some(mut f)) => { one(&mut f, &cs[k], names[k], take, cut >= ends[k]); k += 1; } Ok(None) => break, Err(_) => break } }
            }
            let r = m.foreach_entry(|mut f| { check(k < 3, "a field was made up"); one(&mut f, &cs[k], names[k], take, cut >= ends[k]); k += 1; });
            r.is_ok()
        }
        1 | 3 => {
            let mut r = m.into_entry();
            loop { match r {
                ReadEntryResult::Entry(mut f) => { check(k < 3, "a field was made up"); one(&mut f, &cs[k], names[k], take, cut >= ends[k]); k += 1; r = if way == 1 { f.next_entry() } else { f.data.into_inner().into_entry() }; }
                ReadEntryResult::End(mut m) => { match m.read_entry() { Ok(None) => {} _ => fail("the end does not stay") } break true; }
                ReadEntryResult::Error(_, _) => break false,
            } }
        }
        2 => match m.into_entry() {
            ReadEntryResult::Entry(mut f) => { one(&mut f, &cs[0], names[0], take, cut >= ends[0]); k = 1; loop { match f.next_entry_inplace() {
                Ok(Some(f)) => { check(k < 3, "a field was made up"); one(f, &cs[k], names[k], take, cut >= ends[k]); k += 1; }
                Ok(None) => break true,
                Err(_) => break false,
            } } }
            ReadEntryResult::End(_) => true,
            ReadEntryResult::Error(_, _) => false,
        },
        _ => loop {
            match multipart::server::ReadEntry::read_entry(&mut m) {
                ReadEntryResult::Entry(mut f) => { check(k < 3, "a field was made up"); one(&mut f, &cs[k], names[k], take, cut >= ends[k]); k += 1; }
                ReadEntryResult::End(_) => break true,
                ReadEntryResult::Error(_, _) => break false,
            }
        },
    };
    check(ended == (cut == full), if cut == full { "error instead of a clean end" } else { "clean end reported for a truncated body" });
    if ended { check(k == 3, "fields are missing"); }
    observe(k as u64);
    if ended { reach("ways end"); } else { reach("ways cut"); }
}
