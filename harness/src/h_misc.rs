//! Result conversions (C22) and mock transports (C23).
use crate::env::env;
use crate::prim::*;
use crate::util::*;
use multipart::mock::{ClientRequest, HttpBuffer, ServerRequest, StdoutTee};
use multipart::server::save::{Entries, PartialReason, SaveResult, SavedData};
use multipart::server::{Multipart, ReadEntryResult};
use std::io::{self, Read, Write};

/// a success value and a partial one which converts into it; both carry a payload
#[derive(Debug)]
struct S(u64, bool);
#[derive(Debug)]
struct P(u64);
impl From<P> for S { fn from(p: P) -> S { S(p.0, true) } }

const KINDS: [io::ErrorKind; 18] = [io::ErrorKind::NotFound, io::ErrorKind::Interrupted, io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::InvalidData, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset, io::ErrorKind::ConnectionAborted, io::ErrorKind::NotConnected, io::ErrorKind::BrokenPipe, io::ErrorKind::AlreadyExists, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory];
/// an error of some kind, with or without a payload or an OS code
fn error() -> (io::Error, io::ErrorKind, Option<i32>) {
    let k = choose(KINDS.len() + 2);
    if k == KINDS.len() { let c = u32s() as u8 as i32; return (io::Error::from_raw_os_error(c), io::Error::from_raw_os_error(c).kind(), Some(c)); }
    if k > KINDS.len() { return (io::Error::new(io::ErrorKind::Other, "x"), io::ErrorKind::Other, None); }
    (KINDS[k].into(), KINDS[k], None)
}
fn is(e: &io::Error, k: io::ErrorKind, c: Option<i32>) -> bool { e.raw_os_error() == c && (c.is_some() || e.kind() == k) }
fn utf8() -> std::str::Utf8Error { let b = [b'a', 0xff]; match std::str::from_utf8(&b[..]) { Err(e) => e, Ok(_) => fail("not an error") } }

/// Conversions of save results, one at a time.
#[no_mangle] pub extern "C" fn h_result() {
    let variant = choose(6);
    let v = u64s();
    let (e, k, c) = if variant == 1 || variant == 2 { error() } else { (io::ErrorKind::Other.into(), io::ErrorKind::Other, None) };
    let r: SaveResult<S, P> = match variant {
        0 => SaveResult::Full(S(v, false)),
        1 => SaveResult::Error(e),
        2 => SaveResult::Partial(P(v), PartialReason::IoError(e)),
        3 => SaveResult::Partial(P(v), PartialReason::CountLimit),
        4 => SaveResult::Partial(P(v), PartialReason::SizeLimit),
        _ => SaveResult::Partial(P(v), PartialReason::Utf8Error(utf8())),
    };
    let partial = variant >= 2;
    let ok = |s: S| check(s.0 == v && s.1 == partial, "the value is not the one in the result");
    match choose(6) {
        0 => match r.okish() { Some(s) => { check(variant != 1, "a value out of an error"); ok(s) } None => check(variant == 1, "the value was dropped") },
        1 => {
            let (s, err) = r.into_opt_both();
            match s { Some(s) => { check(variant != 1, "a value out of an error"); ok(s) } None => check(variant == 1, "the value was dropped") }
            match err { Some(err) => check((variant == 1 || variant == 2) && is(&err, k, c), "not the error in the result"), None => check(variant != 1 && variant != 2, "the error was dropped") }
        }
        2 => match r.into_result() {
            Ok(s) => { check(variant != 1, "a success out of an error"); ok(s) }
            Err(e) => check(variant == 1 && is(&e, k, c), "not the error in the result"),
        },
        3 => match r.into_result_strict() {
            Ok(s) => { check(variant != 1 && variant != 2, "a success out of an error"); ok(s) }
            // whether a limit is an error here is not said consistently; nothing but an error or the data may come of it
            Err(e) => check(variant != 0 && (variant > 2 || is(&e, k, c)), "not the error in the result"),
        },
        4 => {
            let mut n = 0;
            let w = u64s();
            let m: SaveResult<u64, u64> = r.map(|s| { n += 1; check(s.0 == v && s.1 == partial, "mapped something else"); w });
            check(n == (variant != 1) as usize, "not mapped once");
            match m {
                SaveResult::Full(x) => check(variant == 0 && x == w, "complete although it was not"),
                SaveResult::Partial(x, why) => { check(partial && x == w, "partial although it was not"); same_reason(&why, variant, k, c) }
                SaveResult::Error(e) => check(variant == 1 && is(&e, k, c), "not the error in the result"),
            }
        }
        _ => match r {
            SaveResult::Partial(_, why) => { same_reason(&why, variant, k, c); if variant == 2 { let e = if choose(2) == 0 { why.unwrap_err() } else { why.expect_err("m") }; check(is(&e, k, c), "not the error in the result"); } }
            _ => {}
        },
    }
    reach("save result converted");
    // the conversions into a reason
    match choose(3) {
        0 => { let (e, k, c) = error(); match PartialReason::from(e) { PartialReason::IoError(e) => check(is(&e, k, c), "another error"), _ => fail("an I/O error became something else") } }
        1 => match PartialReason::from(utf8()) { PartialReason::Utf8Error(e) => check(e.valid_up_to() == 1, "another error"), _ => fail("a decoding error became something else") },
        _ => {}
    }
}
fn same_reason(w: &PartialReason, variant: usize, k: io::ErrorKind, c: Option<i32>) {
    match *w {
        PartialReason::IoError(ref e) => check(variant == 2 && is(e, k, c), "another reason"),
        PartialReason::CountLimit => check(variant == 3, "another reason"),
        PartialReason::SizeLimit => check(variant == 4, "another reason"),
        PartialReason::Utf8Error(ref e) => check(variant == 5 && e.valid_up_to() == 1, "another reason"),
    }
}

/// Conversions of entry results.
#[no_mangle] pub extern "C" fn h_entry_result() {
    let v = u64s();
    let variant = choose(3);
    let (e, k, c) = error();
    let src = Multipart::with_body(Src::new(b"rest".to_vec()), "b");
    let r: ReadEntryResult<Multipart<Src>, u64> = match variant { 0 => ReadEntryResult::Entry(v), 1 => ReadEntryResult::End(src), _ => ReadEntryResult::Error(src, e) };
    match choose(6) {
        0 => match r.into_result() {
            Ok(Some(x)) => check(variant == 0 && x == v, "not the entry"),
            Ok(None) => check(variant == 1, "the end although it is not"),
            Err(e) => check(variant == 2 && is(&e, k, c), "not the error in the result"),
        },
        n @ 1 | n @ 2 => { if variant == 2 { return; } let o = if n == 1 { r.unwrap_opt() } else { r.expect_opt("m") }; match o { Some(x) => check(variant == 0 && x == v, "not the entry"), None => check(variant == 1, "the end although it is not") } }
        n => { if variant != 0 { return; } let x = match n { 3 => r.unwrap(), 4 => r.expect("m"), _ => r.expect_alt("m", "n") }; check(x == v, "not the entry"); }
    }
    reach("entry result converted");
}

/// Conversions of the result of saving a request.
/// how it stops: 0 complete, 1 count limit, 2 size limit, 3 no space, 4 transport error, 5 error at the start
#[no_mangle] pub extern "C" fn h_entries_result() {
    let stop = param(0);
    let s = sym_bytes(2);
    for b in s.iter() { assume((*b < 0x80) & (*b != b'\r') & (*b != b'-')); }
    let c = cat(&[&s, b"0123456789"]);
    let body = cat(&[b"--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nfirst\r\n--b\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\n", &c, b"\r\n--b\r\nContent-Disposition: form-data; name=\"z\"\r\n\r\nlast\r\n--b--\r\n"]);
    let mut src = Src::new(body);
    if stop == 4 { src.piece = 30; src.err = 1; }
    let fired = std::rc::Rc::new(std::cell::RefCell::new(0usize));
    src.shared = Some(fired.clone());
    let e = env();
    if stop == 3 { e.f.err_write = 1; }
    if stop == 5 { e.f.err_mkdir = 1; }
    let mut m = Multipart::with_body(src, "b");
    let r = {
        let mut b = m.save().memory_threshold(6);
        if stop == 1 { b = b.count_limit(1); }
        if stop == 2 { b = b.size_limit(8); }
        b.with_dir("/w/d")
    };
    e.f = crate::env::Faults::default();
    let failed = matches!(r, SaveResult::Error(_));
    // what the result holds
    let (n0, has) = match r {
        SaveResult::Full(ref e) => { check(stop == 0 || (e.fields_count() == 3 && *fired.borrow() + env().fired_write + env().fired_mkdir == 0), "complete although it stopped"); (3, false) }
        SaveResult::Partial(ref p, _) => { check(p.entries.fields_count() as usize <= 3, "more than three"); (p.entries.fields_count() as usize, p.partial.as_ref().map_or(false, |x| x.dest.is_some())) }
        SaveResult::Error(_) => { check(*fired.borrow() + env().fired_write + env().fired_mkdir > 0, "an error without a fault"); (0, false) }
    };
    let io = matches!(r, SaveResult::Partial(_, PartialReason::IoError(_)));
    let first = |e: &Entries, more: usize| {
        check(e.fields_count() as usize == n0 + more, "entries were lost");
        if n0 > 0 { match e.fields.get("a") { Some(v) => match v[0].data { SavedData::Text(ref t) => check(t == "first", "an entry changed"), _ => fail("an entry changed") }, None => fail("an entry was lost") } }
        if more > 0 { check(e.fields.get("f").map_or(false, |v| v.len() == 1 && *v[0].headers.name == *"f") || n0 != 1, "the partial entry was lost"); }
    };
    match choose(5) {
        0 => match r.into_entries() { Some(e) => { check(!failed, "entries out of an error"); first(&e, 0) } None => check(failed, "the entries were dropped") },
        1 => match r.okish() { Some(e) => { check(!failed, "entries out of an error"); first(&e, 0) } None => check(failed, "the entries were dropped") },
        2 => match r.into_result() { Ok(e) => { check(!failed, "a success out of an error"); first(&e, 0) } Err(_) => check(failed, "a failure although there are entries") },
        3 => match r.into_result_strict() { Ok(e) => { check(!failed && !io, "a success out of an error"); first(&e, 0) } Err(_) => check(failed || io || stop == 1 || stop == 2, "a failure although there was no error") },
        _ => match r {
            SaveResult::Partial(p, _) => {
                if choose(2) == 0 { let x = p.keep_partial(); first(&x, has as usize); if has { reach("partial kept"); } } else { let x: Entries = p.into(); first(&x, 0); }
            }
            _ => {}
        },
    }
    reach("request result converted");
}

/// The client's buffer takes every byte once, in order, whatever the random lengths.
/// n symbolic bytes offered, n0 there already, splits of the caller's
#[no_mangle] pub extern "C" fn h_mock_write() {
    let (n, n0, plain) = (param(0), param(1), param(2) == 0);
    let d = sym_bytes(n);
    let pre = if n0 > 9 { vec![b'p'; n0] } else { sym_bytes(n0) };
    let len = u64s();
    let len = if choose(2) == 0 { Some(len) } else { None };
    let e = env();
    e.rng_sym = 12; e.rng_plain = true; e.rng_max = 2 * n + 4;
    let mut b = if n0 == 0 && plain { HttpBuffer::new_empty("bnd".to_string(), len) } else { HttpBuffer::with_buf(pre.clone(), "bnd".to_string(), len) };
    match b.write(&[]) { Ok(k) => check(k == 0, "took bytes out of nothing"), Err(_) => fail("an error on nothing") }
    check(b.buf.len() == n0, "took bytes out of nothing");
    let mut p = 0;
    while p < n {
        let m = 1 + choose(n - p);
        match b.write(&d[p..p + m]) {
            Ok(k) => { let k = concretize(k as u64) as usize; check(k >= 1, "no progress"); check(k <= m, "more taken than offered"); p += k; check(b.buf.len() == n0 + p, "not as many bytes as reported"); }
            Err(_) => fail("an error"),
        }
    }
    check(b.flush().is_ok(), "flushing fails");
    check(b.buf.len() == n0 + n, "other bytes than those written");
    check(same(&b.buf[..n0], &pre) && same(&b.buf[n0..n0 + n], &d), "other bytes than those written");
    check(b.boundary == "bnd" && b.content_len == len, "boundary or length changed");
    {
        let s = b.for_server();
        check(s.data.len() == n0 + n && same(&s.data[..n0], &pre) && same(&s.data[n0..n0 + n], &d) && s.boundary == "bnd" && s.content_len == len, "the server is given something else");
        use multipart::server::HttpRequest;
        check(s.multipart_boundary() == Some("bnd"), "the server is given another boundary");
    }
    use multipart::client::HttpStream;
    match b.finish() { Ok(b) => check(b.buf.len() == n0 + n && same(&b.buf[n0..n0 + n], &d) && b.boundary == "bnd" && b.content_len == len, "finishing changed something"), Err(_) => fail("finishing fails") }
    reach("mock buffer written");
}
/// The server's request delivers every byte once, in order.
#[no_mangle] pub extern "C" fn h_mock_read() {
    let (n, maxr) = (param(0), param(1));
    let d = sym_bytes(n);
    let e = env();
    e.rng_sym = 12; e.rng_plain = true; e.rng_max = 2 * n + 6;
    let len = u64s();
    let mut buf;
    let via = choose(2) == 0;
    let mut s = if via { buf = HttpBuffer::with_buf(d.clone(), "q".to_string(), Some(len)); buf.boundary.push('r'); buf.for_server() } else { ServerRequest::new(&d, "qr") };
    check(s.boundary == "qr" && s.content_len == if via { Some(len) } else { None }, "boundary or length changed");
    let mut got = Vec::new();
    match s.read(&mut []) { Ok(0) => {} _ => fail("read into nothing") }
    loop {
        let m = 1 + choose(maxr);
        let mut out = [0xeeu8; 8];
        match s.read(&mut out[..m]) {
            Ok(k) => {
                let k = concretize(k as u64) as usize;
                check(k <= m, "more than asked for");
                if k == 0 { check(got.len() == n, "the end before all is read"); break; }
                got.extend_from_slice(&out[..k]);
                check(same(&out[k..], &[0xeeu8; 8][k..]), "wrote past what it reports");
                check(got.len() <= n, "more bytes than there are");
            }
            Err(_) => fail("an error"),
        }
    }
    check(same(&got, &d), "other bytes than those given");
    reach("mock request read");
}
/// The mock client request hands boundary and length on.
#[no_mangle] pub extern "C" fn h_mock_client() {
    use multipart::client::HttpRequest;
    let s = sym_bytes(param(0));
    for b in s.iter() { assume(*b < 0x80); }
    let bnd = String::from_utf8(s).unwrap_or_else(|_| fail("text"));
    let len = u64s();
    let len = if choose(2) == 0 { Some(len) } else { None };
    let mut r = ClientRequest::default();
    if choose(2) == 0 { let _ = r.apply_headers("other", Some(3)); }
    check(r.apply_headers(&bnd, len), "headers refused");
    match r.open_stream() { Ok(b) => { check(same(b.boundary.as_bytes(), bnd.as_bytes()), "another boundary"); check(b.content_len == len, "another length"); check(b.buf.is_empty(), "not empty") } Err(_) => fail("an error") }
    reach("mock request opened");
}

struct Inner { d: Vec<u8>, short: usize, err: usize, eintr: usize, flushed: usize, bad_flush: bool }
impl Write for Inner {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let (i, h) = ((self.eintr > 0) as usize, (self.err > 0) as usize);
        let s = if self.short > 0 { b.len() - 1 } else { 0 };
        let c = choose(1 + i + h + s);
        let mut k = b.len();
        if c > 0 {
            if c <= i { self.eintr -= 1; return Err(io::ErrorKind::Interrupted.into()); }
            if c <= i + h { self.err -= 1; return Err(io::ErrorKind::BrokenPipe.into()); }
            self.short -= 1;
            k = c - i - h;
        }
        self.d.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushed = self.d.len() + 1; if self.bad_flush { self.bad_flush = false; return Err(io::ErrorKind::BrokenPipe.into()); } Ok(()) }
}
/// What the tee reports as written went to the wrapped writer once, and to the standard output.
/// n symbolic bytes, short writes of stdout, short writes of the inner writer, hard errors, interruptions
#[no_mangle] pub extern "C" fn h_tee() {
    let (n, so, si, he, ei) = (param(0), param(1), param(2), param(3), param(4));
    let d = sym_bytes(n);
    // lines or no lines
    for b in d.iter() { assume((*b == b'\n') | (*b == b'x') | (*b == b'y')); }
    let e = env();
    e.capture_stdout = true;
    e.f.short_stdout = so;
    let out = io::stdout();
    let mut inner = Inner { d: Vec::new(), short: si, err: he, eintr: ei, flushed: 0, bad_flush: false };
    inner.bad_flush = he > 0 && choose(2) == 1;
    let bad_flush = inner.bad_flush;
    let mut p = 0;
    let mut failed = false;
    {
        let mut t = StdoutTee::new(&mut inner, &out);
        let mut calls = 0;
        while p < n {
            let m = if param(5) == 0 { n - p } else { 1 + choose(n - p) };
            match t.write(&d[p..p + m]) {
                Ok(k) => { check(k <= m, "more than offered"); check(k > 0, "no progress"); p += k; }
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => { failed = true; break; }
            }
            calls += 1;
            if calls > n + ei + 2 { fail("no progress"); }
        }
        check(t.flush().is_ok() != bad_flush, "flushing fails without a fault, or a fault is not reported");
        if bad_flush { check(t.flush().is_ok(), "flushing fails"); }
    }
    check(inner.flushed == inner.d.len() + 1, "flushing does not reach the wrapped writer");
    check(!failed || he > inner.err, "an error without a fault");
    if !failed { check(inner.d.len() == p && same(&inner.d, &d[..p]), "the wrapped writer got other bytes than reported"); reach("tee written"); } else { check(inner.d.len() >= p && inner.d.len() <= n && same(&inner.d, &d[..inner.d.len()]), "the wrapped writer got other bytes"); }
    let o = &env().stdout;
    if !failed { check(same(o, &d[..p]), "the standard output got other bytes than reported"); } else { check(o.len() <= n && same(o, &d[..o.len()]), "the standard output got other bytes"); }
    env().capture_stdout = false;
}
