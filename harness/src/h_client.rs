//! Client side: C09..C13.
use crate::env::env;
use crate::prim::*;
use crate::util::*;
use multipart::client::lazy;
use multipart::client::{self, HttpRequest, HttpStream};
use multipart::server;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// What the transport saw.
#[derive(Default)]
pub struct Wire { pub boundary: String, pub len: Option<u64>, pub applied: usize, pub opened: usize, pub body: Vec<u8>, pub finished: usize }
#[derive(Clone, Copy, Default)]
pub struct WFaults { pub short: usize, pub eintr: usize, pub err: usize, pub zero: usize, pub refuse: bool, pub no_open: bool, pub no_finish: bool }
pub struct Req { pub w: Rc<RefCell<Wire>>, pub f: WFaults, pub fired: Rc<RefCell<usize>> }
pub struct Out { w: Rc<RefCell<Wire>>, f: WFaults, fired: Rc<RefCell<usize>> }
impl HttpRequest for Req {
    type Stream = Out;
    type Error = io::Error;
    fn apply_headers(&mut self, b: &str, n: Option<u64>) -> bool {
        let mut w = self.w.borrow_mut();
        w.applied += 1;
        w.boundary = b.to_string();
        w.len = n;
        !self.f.refuse
    }
    fn open_stream(self) -> io::Result<Out> {
        self.w.borrow_mut().opened += 1;
        if self.f.no_open { *self.fired.borrow_mut() += 1; return Err(io::ErrorKind::ConnectionRefused.into()); }
        Ok(Out { w: self.w, f: self.f, fired: self.fired })
    }
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len();
        if n == 0 { return Ok(0); }
        let f = &mut self.f;
        let i = (f.eintr > 0) as usize;
        let h = (f.err > 0) as usize;
        let z = (f.zero > 0) as usize;
        let s = if f.short > 0 { if n - 1 < 3 { n - 1 } else { 3 } } else { 0 };
        let mut c = choose(1 + i + h + z + s);
        let mut k = n;
        if c > 0 {
            c -= 1;
            if c < i { f.eintr -= 1; return Err(io::ErrorKind::Interrupted.into()); }
            c -= i;
            if c < h { f.err -= 1; *self.fired.borrow_mut() += 1; return Err([io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero][choose(3)].into()); }
            c -= h;
            if c < z { f.zero -= 1; *self.fired.borrow_mut() += 1; return Ok(0); }
            c -= z;
            f.short -= 1;
            // 1, n-1, or half
            k = [1, n - 1, (n + 1) / 2][c];
        }
        self.w.borrow_mut().body.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl HttpStream for Out {
    type Request = Req;
    type Response = usize;
    type Error = io::Error;
    fn finish(self) -> io::Result<usize> {
        if self.f.no_finish { *self.fired.borrow_mut() += 1; return Err(any_kind(5).into()); }
        self.w.borrow_mut().finished += 1;
        Ok(7)
    }
}
fn req(f: WFaults) -> (Req, Rc<RefCell<Wire>>, Rc<RefCell<usize>>) {
    let w = Rc::new(RefCell::new(Wire::default()));
    let x = Rc::new(RefCell::new(0));
    (Req { w: w.clone(), f, fired: x.clone() }, w, x)
}

/// one field as the server should see it
#[derive(Clone)]
pub struct Want { pub name: String, pub file: Option<String>, pub ct: Option<&'static str>, pub data: Vec<u8> }
/// characters a name or filename may have: printable ASCII except the quote
fn text(n: usize) -> String {
    let v = sym_bytes(n);
    for c in v.iter() { assume((*c >= 0x20) & (*c < 0x7f) & (*c != b'"')); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// files with unusual names, one of them a symbolic link
const EXTS2: [(&str, &str); 5] = [(".hidden", "application/octet-stream"), ("a.tar.gz", "application/gzip"), ("\u{fc}m.TXT", "text/plain"), ("dot.", "application/octet-stream"), ("ln.txt", "text/plain")];
const EXTS: [(&str, &str); 4] = [("t.txt", "text/plain"), ("p.png", "image/png"), ("noext", "application/octet-stream"), ("x.unknownext", "application/octet-stream")];
/// field of a kind: 0 text, 1 bare stream, 2 stream with filename and type, 3 file, 4 stream with type only, 5 stream with filename only, 6 text given as a longer value
/// content bytes of field ix: n, or if n has several digits the one for it
fn len_of(n: usize, ix: usize) -> usize { if n < 10 { n } else { kinds_of(n)[ix] } }
fn field(kind: usize, n: usize, nn: usize, ix: usize) -> Want {
    let n = len_of(n, ix);
    // nn = 9: every other field has an empty name (and filename)
    let name = if nn == 9 { if ix % 2 == 0 { String::new() } else { "z".to_string() } } else if kind == 8 { ["n\u{e4}0", "n\u{e4}1", "n\u{e4}2", "n\u{e4}3", "\u{20ac}"][ix % 5].to_string() } else if nn > 0 { text(nn) } else { ["a", "bb", "c c"][ix % 3].to_string() };
    let data = match kind {
        0 => text_value(n),
        6 => cat(&[&vec![b'l'; 1030], &text_value(n)]),
        7 | 9 if n == 7 => cat(&[&vec![b's'; 70000], &sym_bytes(1)]),
        7 | 9 => cat(&[&vec![b's'; 9000], &sym_bytes(n)]),
        _ => sym_bytes(n),
    };
    match kind {
        0 | 6 => Want { name, file: None, ct: None, data },
        1 | 7 => Want { name, file: None, ct: Some("application/octet-stream"), data },
        2 => Want { name, file: Some(if nn == 9 { String::new() } else if nn > 0 { text(nn) } else { "f.bin".into() }), ct: Some("image/gif"), data },
        3 if nn > 0 && nn < 9 => {
            let mut f = text(nn);
            for c in f.as_bytes() { assume(*c != b'/'); }
            f.push_str(".txt");
            env().add_file(&cat(&[b"/w/", f.as_bytes()]), &data);
            Want { name, file: Some(f), ct: Some("text/plain"), data }
        }
        8 => {
            let e = EXTS2[ix % 5];
            if ix % 5 == 4 { env().add_file(b"/w/other-longer-name.png", &data); env().add_link(b"/w/ln.txt", b"other-longer-name.png"); } else { env().add_file(&cat(&[b"/w/", e.0.as_bytes()]), &data); }
            Want { name, file: Some(e.0.into()), ct: Some(e.1), data }
        }
        3 | 9 => { let e = EXTS[ix % 4]; env().add_file(&cat(&[b"/w/", e.0.as_bytes()]), &data); Want { name, file: Some(e.0.into()), ct: Some(e.1), data } }
        4 => Want { name, file: None, ct: Some("text/html; charset=utf-8"), data },
        _ => Want { name, file: Some("up.txt".into()), ct: Some("application/octet-stream"), data },
    }
}
/// valid UTF-8 of n symbolic characters: ASCII of any kind
fn text_value(n: usize) -> Vec<u8> { let v = sym_bytes(n); for c in v.iter() { assume(*c < 0x80); } v }
fn file_path(w: &Want) -> String { ["/w/", w.file.as_ref().unwrap()].concat() }
fn mime_of(w: &Want) -> Option<mime::Mime> { w.ct.map(|c| c.parse().unwrap()) }

fn verify(wire: &Wire, want: &[Want], ordered: bool) {
    verify_body(&wire.body, &wire.boundary, want, ordered)
}
fn verify_body(body: &[u8], boundary: &str, want: &[Want], ordered: bool) {
    observe(body.len() as u64);
    let mut m = server::Multipart::with_body(&body[..], boundary);
    let mut seen = vec![false; want.len()];
    let mut n = 0;
    loop {
        let mut f = match m.read_entry() { Ok(Some(f)) => f, Ok(None) => break, Err(_) => fail("the server rejects the body") };
        check(n < want.len(), "the server sees more fields than were written");
        let mut v = Vec::with_capacity(64);
        match f.data.read_to_end(&mut v) { Ok(_) => {} Err(_) => fail("the server cannot read a field") }
        // fields of prepared requests come in any order: tell them apart by their (concrete) names, then by everything
        let i = if ordered { n } else {
            let c: Vec<usize> = (0..want.len()).filter(|i| !seen[*i] && want[*i].name == &*f.headers.name).collect();
            match c.len() {
                0 => fail("a field has the wrong name"),
                1 => c[0],
                _ => c.iter().cloned().find(|i| { let w = &want[*i]; w.file == f.headers.filename && w.ct == f.headers.content_type.as_ref().map(|c| c.as_ref()) && w.data.len() == v.len() && same(&w.data, &v) }).unwrap_or(c[0]),
            }
        };
        seen[i] = true;
        let w = &want[i];
        check(w.name.len() == f.headers.name.len(), "a field has the wrong name");
        check(same(w.name.as_bytes(), f.headers.name.as_bytes()), "a field has the wrong name");
        match (w.file.as_ref(), f.headers.filename.as_ref()) {
            (None, None) => {}
            (Some(a), Some(b)) => { check(a.len() == b.len(), "a field has the wrong filename"); check(same(a.as_bytes(), b.as_bytes()), "a field has the wrong filename"); }
            _ => fail("a filename was lost or made up"),
        }
        match (w.ct, f.headers.content_type.as_ref()) {
            (None, None) => {}
            (Some(a), Some(b)) => check(a == b.as_ref(), "a field has the wrong content type"),
            _ => fail("a content type was lost or made up"),
        }
        check(v.len() == w.data.len(), "a field has the wrong length");
        check(same(&v, &w.data), "a field has the wrong content");
        n += 1;
    }
    check(n == want.len(), "a field is missing");
}
/// frame and length, without the server
fn framed(wire: &Wire) {
    let b = wire.boundary.as_bytes();
    let open = cat(&[b"--", b]);
    let end = cat(&[b"--", b, b"--\r\n"]);
    let v = &wire.body;
    check(v.len() >= end.len() && same(&v[v.len() - end.len()..], &end), "the body does not end with the closing delimiter");
    check(same(&v[..open.len()], &open), "the body does not start with a delimiter");
}
fn kinds_of(p: usize) -> Vec<usize> {
    // decimal digits, one per field, first digit 9 is dropped: 9 = none, 93 = [3], 901 = [0, 1]
    let mut v = Vec::new();
    let mut k = p;
    while k >= 10 { v.push(k % 10); k /= 10; }
    v.reverse();
    v
}
fn write_one<S: HttpStream<Error = io::Error>>(m: &mut client::Multipart<S>, k: usize, w: &Want, chunk: usize, eintr: usize, err: usize, fired: &mut usize) -> io::Result<()> {
    match k {
        0 | 6 => m.write_text(&w.name, unsafe { std::str::from_utf8_unchecked(&w.data) }).map(|_| ()),
        3 | 8 | 9 => m.write_file(&w.name, file_path(w)).map(|_| ()),
        _ => {
            let mut s = Src::new(w.data.clone());
            if chunk > 0 { s = s.sym(chunk); s.nsym = 3; }
            s.eintr = eintr;
            s.err = err;
            let r = m.write_stream(&w.name, &mut s, if k == 2 || k == 5 { w.file.as_ref().map(|x| &x[..]) } else { None }, if k == 2 || k == 4 { mime_of(w) } else { None }).map(|_| ());
            *fired += s.err_fired;
            r
        }
    }
}

/// Streaming client to server. p: field kinds, symbolic content bytes, symbolic name bytes, stream chunk, short writes, sized?, interruptions of each stream
#[no_mangle] pub extern "C" fn h_c09() {
    let (ks, n, nn, chunk, short, sized) = (kinds_of(param(0)), param(1), param(2), param(3), param(4), param(5));
    let want: Vec<Want> = ks.iter().enumerate().map(|(i, k)| field(*k, n, nn, i)).collect();
    let (r, wire, _) = req(WFaults { short, ..Default::default() });
    let mut z = 0;
    let res = if sized == 1 {
        let mut m = client::Multipart::from_request_sized(r).unwrap();
        for (k, w) in ks.iter().zip(&want) { if write_one(&mut m, *k, w, chunk, param(6), 0, &mut z).is_err() { fail("writing a field failed"); } }
        m.send()
    } else {
        let mut m = client::Multipart::from_request(r).unwrap();
        for (k, w) in ks.iter().zip(&want) { if write_one(&mut m, *k, w, chunk, param(6), 0, &mut z).is_err() { fail("writing a field failed"); } }
        m.send()
    };
    match res { Ok(x) => check(x == 7, "another response"), Err(_) => fail("sending failed") }
    let wire = wire.borrow();
    check(wire.finished == 1, "the request was not finished exactly once");
    check(wire.applied == 1 && wire.opened == 1, "the request was not opened exactly once");
    // the content must not contain the delimiter
    for w in want.iter() { assume(!occurs(&w.data[w.data.len().saturating_sub(64)..], &cat(&[b"--", wire.boundary.as_bytes()]))); }
    framed(&wire);
    if sized == 1 { check(wire.len == Some(wire.body.len() as u64), "the announced length differs from the body"); } else { check(wire.len.is_none(), "a length was announced for a streamed body"); }
    verify(&wire, &want, true);
    if sized == 1 { reach("c09 sized"); } else { reach("c09 streamed"); }
}
/// Names with characters the header syntax cannot carry as they are. p: which
#[no_mangle] pub extern "C" fn h_c09_quote() {
    let c = [b'"', b'\r', b'\n'][param(0)];
    let mut v = sym_bytes(1);
    assume((v[0] >= 0x20) & (v[0] < 0x7f));
    v.push(c);
    v.push(b'z');
    let name = unsafe { String::from_utf8_unchecked(v) };
    let (r, wire, _) = req(WFaults::default());
    let mut m = client::Multipart::from_request(r).unwrap();
    // refusing such a name would do as well
    if m.write_text(&name, "v").is_err() { reach("c09 unrepresentable name"); return; }
    if m.send().is_err() { fail("sending failed"); }
    reach("c09 unrepresentable name");
    let wire = wire.borrow();
    let mut s = server::Multipart::with_body(&wire.body[..], &wire.boundary[..]);
    match s.read_entry() { Ok(Some(f)) => check(*f.headers.name == name[..], "a name with a quote or line break is not delivered as written"), _ => fail("a name with a quote or line break is not delivered as written") }
}

// ---- C10 ------------------------------------------------------------------------------------
/// The boundary and the framing with an arbitrary random source. p: fields, how (0 streamed, 1 sized, 2 lazy), random words before the fixed rest, of these rejected by rand at most
#[no_mangle] pub extern "C" fn h_c10() {
    let (ks, how) = (kinds_of(param(0)), param(1));
    env().rng_sym = param(2);
    env().rng_rej = param(3);
    let want: Vec<Want> = ks.iter().enumerate().map(|(i, k)| field(*k, if param(4) > 0 { param(4) } else { 1 }, param(5), i)).collect();
    let (r, wire, _) = req(WFaults::default());
    let mut z = 0;
    match how {
        0 => { let mut m = client::Multipart::from_request(r).unwrap(); for (k, w) in ks.iter().zip(&want) { write_one(&mut m, *k, w, 0, 0, 0, &mut z).unwrap(); } m.send().unwrap(); }
        1 => { let mut m = client::Multipart::from_request_sized(r).unwrap(); for (k, w) in ks.iter().zip(&want) { write_one(&mut m, *k, w, 0, 0, 0, &mut z).unwrap(); } m.send().unwrap(); }
        _ => { let mut m = lazy::Multipart::new(); for (k, w) in ks.iter().zip(&want) { add_one(&mut m, *k, w, 0, 0, 0, &Rc::new(RefCell::new(0))); } if m.send(r).is_err() { fail("sending failed"); } }
    }
    let wire = wire.borrow();
    let b = wire.boundary.as_bytes();
    observe_bytes(b);
    check(b.len() >= 1 && b.len() <= 70, "the boundary has an invalid length");
    for c in b.iter() { check(((*c >= b'0') & (*c <= b'9')) | ((*c >= b'a') & (*c <= b'z')) | ((*c >= b'A') & (*c <= b'Z')), "the boundary has an invalid character"); }
    // walk the body: it is exactly the parts, each after a delimiter with this boundary
    let v = &wire.body;
    let mut p = 0;
    let dl = cat(&[b"--", b]);
    if v.len() >= 2 && v[0] == b'\r' && v[1] == b'\n' { p = 2; }
    let mut used = vec![false; want.len()];
    for _ in 0..want.len() {
        check(v.len() >= p + dl.len() && same(&v[p..p + dl.len()], &dl), "a field is not introduced by the announced delimiter");
        p += dl.len();
        // which one is it? (names are concrete and different)
        let head_of = |w: &Want| {
            let mut h = format!("\r\nContent-Disposition: form-data; name=\"{}\"", w.name);
            if let Some(f) = w.file.as_ref() { h.push_str("; filename=\""); h.push_str(f); h.push_str("\""); }
            if let Some(c) = w.ct { h.push_str("\r\nContent-Type: "); h.push_str(c); }
            h.push_str("\r\n\r\n");
            h
        };
        let i = match (0..want.len()).find(|i| !used[*i] && v[p..].starts_with(head_of(&want[*i]).as_bytes())) { Some(i) => i, None => fail("a field's headers are wrong") };
        used[i] = true;
        let h = head_of(&want[i]);
        check(v.len() >= p + h.len() + want[i].data.len() && same(&v[p + h.len()..p + h.len() + want[i].data.len()], &want[i].data), "a field's content is wrong");
        p += h.len() + want[i].data.len();
        check(v.len() >= p + 2 && v[p] == b'\r' && v[p + 1] == b'\n', "a field does not end before a line break");
        p += 2;
    }
    check(v.len() >= p + dl.len() + 2, "no closing delimiter");
    check(same(&v[p..p + dl.len()], &dl) && v[p + dl.len()] == b'-' && v[p + dl.len() + 1] == b'-', "no closing delimiter");
    let rest = &v[p + dl.len() + 2..];
    check(rest.is_empty() || rest == b"\r\n", "data after the closing delimiter");
    reach("c10 framed");
}

// ---- C11, C12: prepared requests -------------------------------------------------------------
fn add_one<'n>(m: &mut lazy::Multipart<'n, 'static>, k: usize, w: &Want, chunk: usize, eintr: usize, err: usize, fired: &Rc<RefCell<usize>>) {
    match k {
        0 | 6 => { m.add_text(w.name.clone(), unsafe { String::from_utf8_unchecked(w.data.clone()) }); }
        3 | 8 | 9 => { m.add_file(w.name.clone(), file_path(w)); }
        _ => {
            let mut s = Src::new(w.data.clone());
            if chunk > 0 { s = s.sym(chunk); s.nsym = 3; }
            s.eintr = eintr;
            s.err = err;
            s.shared = Some(fired.clone());
            m.add_stream(w.name.clone(), s, if k == 2 || k == 5 { w.file.clone() } else { None }, if k == 2 || k == 4 { mime_of(w) } else { None });
        }
    }
}
fn is_sized(ks: &[usize]) -> bool { ks.iter().all(|k| *k == 0 || *k == 3 || *k == 6 || *k >= 8) }
/// A prepared request read with various buffer sizes. p: field kinds, symbolic bytes, stream chunk, reading style, interruptions of streams
#[no_mangle] pub extern "C" fn h_c12() {
    let (ks, n, chunk, style, eintr) = (kinds_of(param(0)), param(1), param(2), param(3), param(4));
    let want: Vec<Want> = ks.iter().enumerate().map(|(i, k)| { let mut w = field(*k, n, 0, i); if *k != 8 { w.name = if param(5) == 8 { "n" } else { [if param(5) == 9 { "" } else { "n0" }, "n1", "n2", "n3"][i] }.to_string(); if param(5) == 9 && i == 0 && *k == 2 { w.file = Some(String::new()); } } w }).collect();
    let mut m = lazy::Multipart::new();
    for (k, w) in ks.iter().zip(&want) { add_one(&mut m, *k, w, chunk, eintr, 0, &Rc::new(RefCell::new(0))); }
    if style == 9 {
        // sent as a whole over a transport
        let (r, wire, _) = req(WFaults { short: 1, ..Default::default() });
        match m.send(r) { Ok(x) => check(x == 7, "another response"), Err(_) => fail("sending failed") }
        let wire = wire.borrow();
        if is_sized(&ks) { if let Some(l) = wire.len { check(l == wire.body.len() as u64, "the announced length differs from the body"); } } else { check(wire.len.is_none(), "a length was announced although it is not known"); }
        for w in want.iter() { assume(!occurs(&w.data[w.data.len().saturating_sub(64)..], &cat(&[b"--", wire.boundary.as_bytes()]))); }
        verify(&wire, &want, false);
        reach("c12 sent");
        return;
    }
    let mut p = match m.prepare() { Ok(p) => p, Err(_) => fail("preparing failed") };
    let boundary = p.boundary().to_string();
    let len = p.content_len();
    let mut body = Vec::with_capacity(256);
    let mut free = 3;
    let mut one = 0;
    let mut k = 0;
    loop {
        k += 1;
        if k > 12000 { fail("reading a prepared request does not end"); }
        if style == 33 {
            match p.read_to_end(&mut body) { Ok(j) => check(j == body.len(), "read_to_end returned another count"), Err(_) => fail("reading a prepared request failed") }
            break;
        }
        let mut buf = [0u8; 200];
        let sz = match style {
            // one size throughout
            30 => { if one == 0 { one = 1 + choose(190); } one }
            32 => { if one == 0 { one = 150 + choose(50); } one }
            // single bytes up to somewhere, then large ones
            34 => 17,
            35 => { if one == 0 { one = 1 + choose(12); } 23 }
            31 => { if one == 0 { one = 1 + choose(190); } if k < one { 1 } else { 200 } }
 0 => 64, 1 => 1, 2 => if free > 0 { free -= 1; 1 + choose(3) } else { 7 }, 3 => [64, 50, 13][k % 3], _ => if k < style { 17 } else if free > 0 { free -= 1; 1 + choose(4) } else { 64 } };
        // empty buffers are never filled, and change nothing
        if style == 34 || style == 35 && k == one { match p.read(&mut []) { Ok(0) => {} _ => fail("an empty buffer was not read as such") } }
        match p.read(&mut buf[..sz]) {
            Ok(0) => break,
            Ok(j) => { check(j <= sz, "read returned more than the buffer holds"); body.extend_from_slice(&buf[..j]); }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted && eintr > 0 => {}
            Err(_) => fail("reading a prepared request failed"),
        }
    }
    let mut b = [0u8; 4];
    match p.read(&mut b) { Ok(0) => {} _ => fail("data after the end of a prepared request") }
    observe(len.unwrap_or(u64::MAX));
    match len {
        Some(l) => check(l == body.len() as u64, "the announced length differs from the body"),
        None => {}
    }
    if !is_sized(&ks) { check(len.is_none(), "a length was announced although it is not known"); }
    for w in want.iter() { assume(!occurs(&w.data[w.data.len().saturating_sub(64)..], &cat(&[b"--", boundary.as_bytes()]))); }
    verify_body(&body, &boundary, &want, false);
    if is_sized(&ks) { reach("c12 sized"); } else { reach("c12 unsized"); }
}

// ---- C13: faults ---------------------------------------------------------------------------------
/// p: field kinds, how (0 streamed, 1 sized, 2 lazy), which (0 interrupts, 1 hard source error, 2 hard transport error, 3 zero write, 4 refused headers, 5 no stream, 6 no finish, 7 file read error, 8 file read interrupted/short, 9 missing file, 10 file open error), short writes
#[no_mangle] pub extern "C" fn h_c13() {
    let (ks, how, which, short, on) = (kinds_of(param(0)), param(1), param(2), param(3), param(4) == 1);
    let want: Vec<Want> = ks.iter().enumerate().map(|(i, k)| { let mut w = field(*k, 2, 0, i); if *k != 8 { w.name = if param(5) == 8 { "n" } else { [if param(5) == 9 { "" } else { "n0" }, "n1", "n2", "n3"][i] }.to_string(); if param(5) == 9 && i == 0 && *k == 2 { w.file = Some(String::new()); } } w }).collect();
    let mut f = WFaults { short, ..Default::default() };
    let (mut eintr, mut err) = (0, 0);
    match which {
        0 => { f.eintr = 1; eintr = 1; }
        1 => err = 1,
        2 => f.err = 1,
        3 => f.zero = 1,
        4 => f.refuse = true,
        5 => f.no_open = true,
        6 => f.no_finish = true,
        7 => env().f.err_read = 1,
        8 => { env().f.eintr_read = 1; env().f.short_read = 1; }
        9 => { let p = cat(&[b"/w/", want.iter().find(|w| w.file.is_some()).unwrap().file.as_ref().unwrap().as_bytes()]); let i = env().find(&p).unwrap(); env().nodes[i].alive = false; }
        _ => env().f.err_open = 1,
    }
    let (r, wire, tf) = req(f);
    let mut src_fired = 0;
    let lf = Rc::new(RefCell::new(0));
    let res: io::Result<usize> = match how {
        // fields whose file can't be opened are left out
        0 | 1 if on => {
            let mut failed = Vec::new();
            let res = {
                let mut put = |e: bool, i: usize| if e { failed.push(i) };
                if how == 0 { client::Multipart::from_request(r).and_then(|mut m| { for (i, w) in want.iter().enumerate() { put(write_one(&mut m, ks[i], w, 2, 0, 0, &mut src_fired).is_err(), i); } m.send() }) }
                else { client::Multipart::from_request_sized(r).and_then(|mut m| { for (i, w) in want.iter().enumerate() { put(write_one(&mut m, ks[i], w, 2, 0, 0, &mut src_fired).is_err(), i); } m.send() }) }
            };
            let missing = if which == 9 { 1 } else { env().fired_open };
            check(failed.len() == missing, "another number of fields fails than files");
            for i in failed.iter() { check(want[*i].file.is_some(), "a field without a file fails"); }
            let rest: Vec<Want> = want.iter().enumerate().filter(|x| !failed.contains(&x.0)).map(|x| x.1.clone()).collect();
            match res { Ok(x) => check(x == 7, "another response"), Err(_) => fail("the request cannot go on without the file") }
            let wire = wire.borrow();
            for w in rest.iter() { assume(!occurs(&w.data[w.data.len().saturating_sub(64)..], &cat(&[b"--", wire.boundary.as_bytes()]))); }
            if let Some(l) = wire.len { check(l == wire.body.len() as u64, "the announced length differs from the body"); }
            verify(&wire, &rest, true);
            reach("c13 goes on");
            return;
        }
        0 => client::Multipart::from_request(r).and_then(|mut m| { for (k, w) in ks.iter().zip(&want) { write_one(&mut m, *k, w, 2, eintr, err, &mut src_fired)?; } m.send() }),
        1 => client::Multipart::from_request_sized(r).and_then(|mut m| { for (k, w) in ks.iter().zip(&want) { write_one(&mut m, *k, w, 2, eintr, err, &mut src_fired)?; } m.send() }),
        _ => { let mut m = lazy::Multipart::new(); for (k, w) in ks.iter().zip(&want) { add_one(&mut m, *k, w, 2, eintr, err, &lf); } m.send(r).map_err(|e| {
            // a file which can't be opened is told by its field
            if which == 9 || which == 10 {
                match e.field_name { Some(ref n) => check(want.iter().any(|w| w.file.is_some() && w.name == &n[..] && (which == 10 || env().find(file_path(w).as_bytes()).is_none())), "the error names another field"), None => fail("the error does not name the field") }
                reach("c13 field named");
            }
            e.error
        }) }
    };
    let fired = *tf.borrow() + src_fired + *lf.borrow() + env().fired_read + env().fired_open;
    let wire = wire.borrow();
    observe(fired as u64);
    observe(res.is_ok() as u64);
    match res {
        Ok(x) => {
            check(x == 7, "another response");
            check(fired == 0, "success although a source, file or transport failed");
            check(which != 4, "success although the request refused the headers");
            check(which != 9, "success although a file is missing");
            check(wire.finished == 1, "success although the request was not finished");
            for w in want.iter() { assume(!occurs(&w.data[w.data.len().saturating_sub(64)..], &cat(&[b"--", wire.boundary.as_bytes()]))); }
            if let Some(l) = wire.len { check(l == wire.body.len() as u64, "the announced length differs from the body"); }
            verify(&wire, &want, how != 2);
            reach("c13 success");
        }
        Err(_) => {
            check(fired > 0 || which == 4 || which == 9, "an error without a fault");
            check(wire.finished == 0, "the request was finished although it failed");
            if which == 4 { check(wire.opened == 0, "the stream was opened although the request refused the headers"); }
            reach("c13 failure");
        }
    }
}
