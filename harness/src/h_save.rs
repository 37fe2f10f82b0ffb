//! Saving: C14..C21.
use crate::env::{env, Faults};
use crate::prim::*;
use crate::util::*;
use multipart::server::save::{Entries, PartialReason, SaveBuilder, SaveDir, SaveResult, SavedData, SavedField};
use multipart::server::{Multipart, MultipartField, ReadEntry, ReadEntryResult};
use std::io::{self, BufRead, Read, Write};

/// an assertion of property `p`; jobs of other properties do not raise it
#[inline(never)]
fn ck(p: usize, c: bool, m: &str) { if param(0) == p { check(c, m) } }
fn bad(m: &str) -> ! { fail(m) }

fn head(name: &str, file: Option<&str>, ct: Option<&str>) -> Vec<u8> {
    let mut v = cat(&[b"--b\r\nContent-Disposition: form-data; name=\"", name.as_bytes(), b"\""]);
    if let Some(f) = file { v.extend_from_slice(b"; filename=\""); v.extend_from_slice(f.as_bytes()); v.push(b'"'); }
    if let Some(c) = ct { v.extend_from_slice(b"\r\nContent-Type: "); v.extend_from_slice(c.as_bytes()); }
    v.extend_from_slice(b"\r\n\r\n");
    v
}

/// the file system before the save: everything alive then
pub(crate) struct Before { n: usize }
pub(crate) fn before() -> Before { Before { n: env().nodes.len() } }
/// nodes created since and still there
pub(crate) fn created(b: &Before) -> Vec<usize> { let e = env(); (b.n..e.nodes.len()).filter(|i| e.nodes[*i].alive).collect() }
pub(crate) fn path_bytes(p: &std::path::Path) -> Vec<u8> { use std::os::unix::ffi::OsStrExt; p.as_os_str().as_bytes().to_vec() }

/// what the result says is stored, from where it says it is
pub(crate) fn stored(d: &SavedData) -> Option<Vec<u8>> {
    match *d {
        SavedData::Text(ref t) => Some(t.as_bytes().to_vec()),
        SavedData::Bytes(ref b) => Some(b.clone()),
        SavedData::File(ref p, n) => {
            let i = env().find(&path_bytes(p))?;
            let f = &env().nodes[i];
            if f.dir || (f.data.len() as u64) < n { return None; }
            Some(f.data[..n as usize].to_vec())
        }
    }
}
fn file_len(d: &SavedData) -> Option<u64> {
    if let SavedData::File(ref p, _) = *d { return env().find(&path_bytes(p)).map(|i| env().nodes[i].data.len() as u64); }
    None
}
pub(crate) fn is_prefix(s: &[u8], c: &[u8]) -> bool { s.len() <= c.len() && same(s, &c[..s.len()]) }

/// limit and threshold by mode
fn limits(mode: usize) -> (Option<u64>, u64) {
    match mode {
        0 => (Some(u64s()), u64s()),
        1 => (None, u64s()),
        2 => (Some(u64s()), u64::MAX),
        3 => (None, u64::MAX),
        4 => (None, 0),
        5 => (Some(u64s()), 0),
        6 => (Some(8 << 20), 10 << 10),
        m => (Some(u64s()), (m - 10) as u64),
    }
}

/// set a builder up. Order: 0 limit, threshold, policy; 1 the other way round; 2 other values first, then these; 3 nothing but the policy (the defaults)
fn tune<S>(s: SaveBuilder<S>, order: usize, lim: Option<u64>, thr: u64, pol: usize) -> SaveBuilder<S> {
    let text = |s: SaveBuilder<S>| match pol { 0 => s.try_text(), 1 => s.force_text(), 2 => s.ignore_text(), _ => s };
    match order {
        0 => text(s.size_limit(lim).memory_threshold(thr)),
        1 => text(s).memory_threshold(thr).size_limit(lim),
        2 => text(s.memory_threshold(3).size_limit(2).force_text().try_text().memory_threshold(thr)).size_limit(None).size_limit(lim),
        _ => text(s),
    }
}

pub struct Dest { d: Vec<u8>, short: usize, eintr: usize, err: usize, zero: usize, fired: usize }
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len();
        if n == 0 { return Ok(0); }
        let (i, h, z) = ((self.eintr > 0) as usize, (self.err > 0) as usize, (self.zero > 0) as usize);
        let s = if self.short > 0 { if n - 1 < 3 { n - 1 } else { 3 } } else { 0 };
        let mut c = choose(1 + i + h + z + s);
        let mut k = n;
        if c > 0 {
            c -= 1;
            if c < i { self.eintr -= 1; return Err(io::ErrorKind::Interrupted.into()); }
            c -= i;
            if c < h { self.err -= 1; self.fired += 1; return Err([io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof][choose(4)].into()); }
            c -= h;
            if c < z { self.zero -= 1; self.fired += 1; return Ok(0); }
            c -= z;
            self.short -= 1;
            k = [1, n - 1, (n + 1) / 2][c];
        }
        self.d.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// One field saved on its own.
/// p: property, n symbolic bytes, shape, policy, target, arrival, limits, faults
#[no_mangle] pub extern "C" fn h_save() {
    let (prop, n, shape, policy, target, arrival, lmode, fmode) = (param(0), param(1), param(2), param(3) % 10, param(4), param(5), param(6), param(7));
    let order = param(3) / 10;
    // contents
    let sym = sym_bytes(n);
    assume(!occurs(&sym, b"--b"));
    let c = match shape {
        0 => sym,
        // 1024 bytes reach the reader with the headers, the rest arrives as `arrival` says
        1 => cat(&[&[b'x'; 1024], &sym]),
        2 => cat(&[&[b'x'; 1024], &sym, b"yyyyyyyyyyyy"]),
        3 => { for b in sym.iter() { assume(*b < 0x80); } sym }
        4 => { for b in sym.iter() { assume(*b < 0x80); } cat(&[&[b'x'; 1024], &sym, b"yyyyyyyyyyyy"]) }
        // a value which fills the buffer more than once
        5 => { for b in sym.iter() { assume(*b < 0x80); } cat(&[&vec![b'x'; 9000], &sym, &vec![b'y'; 9000]]) }
        6 => { for b in sym.iter() { assume(*b < 0x80); } cat(&[&vec![b'x'; 10200], &sym, &vec![b'y'; 60]]) }
        // a value of more than 64 KB
        7 => { for b in sym.iter() { assume(*b < 0x80); } cat(&[&vec![b'x'; 70000], &sym, &vec![b'y'; 60]]) }
        // any bytes across the end of the buffer, at several offsets
        k => cat(&[&vec![b'x'; 8192 - 98 - (k - 8)], &sym, &[b'y'; 30]]),
    };
    let h = head("f", Some("../../evil"), Some("text/plain"));
    let body = cat(&[&h, &c, b"\r\n--b\r\n", &head("g", None, None)[5..], b"next\r\n--b--\r\n"]);
    let mut src = Src::new(body);
    // arrival: 0 everything at once; 1+k: first read ends k bytes into the symbolic part, then pieces
    if arrival > 0 {
        let k = (arrival - 1) % 10;
        src = src.first(&[h.len() + 1024 + k]);
        src.piece = [1, 3, 7, 64, 700][(arrival - 1) / 10 % 5];
    }
    let fired = std::rc::Rc::new(std::cell::RefCell::new(0usize));
    src.shared = Some(fired.clone());
    if fmode == 5 { src.err = 1; src.fault_after = h.len(); }
    if fmode == 6 { src.eintr = 2; src.fault_after = h.len(); }
    let (lim, thr) = limits(lmode);
    let l = lim.unwrap_or(u64::MAX);

    let e = env();
    if fmode == 10 { e.rng_sym = 12; e.add_dir(b"/w/up"); e.add_file(b"/w/up/aaaaaaaaaaaa", b"OLD"); }
    if fmode >= 11 { e.add_file(b"/w/file", b"OLDOLDOLD"); }
    // somebody else's file in the directory
    let mp = Multipart::with_body(src, "b");
    let mut f = match mp.into_entry() { ReadEntryResult::Entry(f) => f, _ => { if *fired.borrow() > 0 { return; } bad("no field") } };
    if arrival > 0 { f.data.set_min_buf_size(0); }
    let b = before();
    e.f = match fmode {
        1 => Faults { err_write: 1, ..Faults::default() },
        2 => Faults { eintr_write: 1, short_write: 1, ..Faults::default() },
        3 => Faults { err_open: 1, ..Faults::default() },
        4 => Faults { err_mkdir: 1, ..Faults::default() },
        _ => Faults::default(),
    };
    if target >= 8 { return write_to(f, &c, lim, target, fmode, &fired); }
    let res = {
        let mut s = tune(f.data.save(), order, lim, thr, policy);
        // options of the caller's own
        if fmode == 12 { s = s.mod_open_opts(|o| { o.create_new(false).create(true).truncate(true).write(false); }); }
        if fmode == 13 { s = s.mod_open_opts(|o| { o.write(false); }); }
        match target {
            0 => s.with_dir("/w/up"),
            1 => s.with_path("/w/up/deep/file"),
            2 => s.temp(),
            3 => s.with_filename("named"),
            4 => s.with_path("/w/file"),
            5 => s.with_path("rel"),
            6 => s.with_dir("reldir"),
            _ => s.with_dir(""),
        }
    };
    e.f = Faults::default();
    let pol = if policy > 2 { 0 } else { policy };
    let hard = e.fired_write + e.fired_open + e.fired_mkdir + *fired.borrow() > 0;
    let len = c.len() as u64;
    let utf8 = pol != 2 && std::str::from_utf8(&c).is_ok();
    let new = created(&b);
    for i in new.iter() { ck(14, env().nodes[*i].dir || env().nodes[*i].data.len() as u64 <= l, "more bytes on disk than the size limit"); }
    let mem_only = len <= thr || l <= thr;
    if mem_only { for p in [15, 20] { ck(p, new.is_empty(), "file system touched although the field belongs in memory"); } }
    let mut have = 0;
    let existed = (fmode == 11 || fmode == 13) && target == 4;
    match res {
        SaveResult::Full(ref d) => {
            reach("save complete");
            let s = match stored(d) { Some(s) => s, None => bad("the saved file is not there") };
            have = s.len();
            ck(14, len <= l, "complete although the field is over the size limit");
            ck(14, s.len() == c.len(), "complete but not all of the field stored");
            ck(17, same(&s, &c) & (d.size() == len), "the saved data is not the field's content");
            ck(17, file_len(d).unwrap_or(len) == len, "the saved file has other bytes too");
            if prop == 17 { read_back(d, &c); }
            ck(15, d.is_memory() == mem_only, "the field is not where the threshold puts it");
            ck(19, !hard, "complete although a fault struck");
            ck(19, same(&s, &c) & (file_len(d).unwrap_or(len) == len), "the saved data is not the field's content");
            ck(20, !existed || d.is_memory(), "an existing file was saved to");
            match *d {
                SavedData::Text(_) => { reach("saved text"); ck(16, pol != 2, "text although text is ignored"); ck(16, utf8, "text which is not valid UTF-8"); ck(16, same(&s, &c), "the text is not the field's content"); }
                SavedData::Bytes(_) => { reach("saved bytes"); ck(16, pol != 1, "bytes although text is forced"); ck(16, !utf8, "bytes although the content is text"); }
                SavedData::File(ref p, _) => { reach("saved file"); where_to(target, p, &new); }
            }
            if pol == 1 { ck(16, utf8 || !mem_only, "invalid text saved"); }
        }
        SaveResult::Partial(ref d, ref why) => {
            let s = match stored(d) { Some(s) => s, None => bad("the partial file is not there") };
            have = s.len();
            ck(14, s.len() as u64 <= l, "more bytes stored than the size limit");
            ck(14, is_prefix(&s, &c), "the stored bytes are not a prefix of the field");
            ck(19, is_prefix(&s, &c) & (d.size() == s.len() as u64), "the stored bytes are not a prefix of the field");
            if d.is_memory() && !hard { ck(15, s.len() as u64 <= thr, "more in memory than the threshold"); } else { ck(15, hard || l > thr, "on disk although the size limit is within the threshold"); }
            if let SavedData::Text(ref t) = *d { ck(16, pol != 2 && std::str::from_utf8(t.as_bytes()).is_ok(), "partial text which is not text"); }
            match *why {
                PartialReason::SizeLimit => {
                    reach("size limit");
                    ck(14, len > l, "stopped by the size limit although the field fits");
                    ck(19, !hard, "a fault reported as the size limit");
                    ck(16, !(pol == 1 && len <= thr && len <= l && !utf8), "invalid text not reported");
                }
                PartialReason::Utf8Error(_) => { reach("utf8 error"); ck(16, pol == 1 && !utf8, "UTF-8 error without need"); ck(14, pol == 1, "not a size limit"); }
                PartialReason::IoError(_) => {
                    reach("fault reported");
                    for p in [14, 15, 16, 17, 19] { ck(p, hard || existed || fmode == 10, "an error without a fault"); }
                }
                PartialReason::CountLimit => bad("count limit on a single field"),
            }
        }
        SaveResult::Error(_) => {
            reach("error reported");
            for p in [14, 15, 16, 17, 19] { ck(p, hard || existed || fmode == 10, "an error without a fault"); }
        }
    }
    // never a different file than ours
    let e = env();
    if fmode == 10 { let i = e.find(b"/w/up/aaaaaaaaaaaa").unwrap_or_else(|| bad("file gone")); ck(20, same(&e.nodes[i].data, b"OLD") && i < b.n, "an existing file was changed"); }
    if existed { let i = e.find(b"/w/file").unwrap_or_else(|| bad("file gone")); ck(20, same(&e.nodes[i].data, b"OLDOLDOLD") && i < b.n, "an existing file was changed"); }
    ck(20, e.trunc_existing == 0 || fmode == 12, "a file was truncated");
    if new.len() > 0 && !matches!(res, SaveResult::Full(_)) { places(target, &new); }
    ck(19, e.open_fds() == 0, "a file is left open");
    if prop == 21 || prop == 14 || prop == 19 || prop == 16 {
        // what was not saved is still in the field
        let mut rest = Vec::new();
        let r = f.data.read_to_end(&mut rest);
        if r.is_err() { check(*fired.borrow() > 0, "the rest of the field fails to be read"); return; }
        check(have + rest.len() == c.len() && same(&rest, &c[have..]), "bytes of the field are lost or repeated");
        match f.next_entry() {
            ReadEntryResult::Entry(mut g) => {
                check(&*g.headers.name == "g", "another field follows");
                let mut v = Vec::new();
                if g.data.read_to_end(&mut v).is_ok() { check(same(&v, b"next"), "the next field is damaged"); } else { check(*fired.borrow() > 0, "the next field fails"); }
            }
            ReadEntryResult::End(_) => bad("the next field is missing"),
            ReadEntryResult::Error(_, _) => check(*fired.borrow() > 0 || fmode == 6, "the next field fails"),
        }
    }
}
/// the file is where it was asked for, under a name of the right kind
fn where_to(target: usize, p: &std::path::Path, new: &[usize]) {
    let v = path_bytes(p);
    let e = env();
    match target {
        0 | 2 | 6 | 7 => {
            let dir: &[u8] = match target { 0 => b"/w/up/", 2 => b"/tmp/", 6 => b"reldir/", _ => b"" };
            ck(20, v.len() == dir.len() + 12 && v.starts_with(dir), "the file is not in the directory asked for");
            if v.len() == dir.len() + 12 { for c in v[dir.len()..].iter() { ck(20, c.is_ascii_alphanumeric(), "the file name is not random alphanumerics"); } }
        }
        1 => ck(20, v == b"/w/up/deep/file", "not the path asked for"),
        3 => ck(20, v == b"/tmp/named", "not the file name asked for in the temporary directory"),
        4 => ck(20, v == b"/w/file", "not the path asked for"),
        _ => ck(20, v == b"rel", "not the path asked for"),
    }
    places(target, new);
    let mut files = 0;
    for i in new.iter() { if !e.nodes[*i].dir { files += 1; ck(20, e.nodes[*i].path == v || (target >= 5 && e.nodes[*i].path.starts_with(b"/w/") && e.nodes[*i].path[3..] == v[..]), "another file was created"); } }
    ck(20, files == 1, "not exactly one file was created");
}
fn places(target: usize, new: &[usize]) {
    let e = env();
    for i in new.iter() {
        let p = &e.nodes[*i].path;
        let ok = match target {
            0 => p == b"/w/up" || (p.starts_with(b"/w/up/") && !e.nodes[*i].dir),
            1 => p == b"/w/up" || p == b"/w/up/deep" || p == b"/w/up/deep/file",
            2 => p.starts_with(b"/tmp/") && p.len() == 17 && !e.nodes[*i].dir,
            3 => p == b"/tmp/named",
            4 => p == b"/w/file",
            5 => p == b"/w/rel",
            6 => p == b"/w/reldir" || (p.starts_with(b"/w/reldir/") && !e.nodes[*i].dir),
            _ => p.starts_with(b"/w/") && p.len() == 15 && !e.nodes[*i].dir,
        };
        ck(20, ok, "created something elsewhere");
    }
}
fn write_to<M: ReadEntry>(mut f: MultipartField<M>, c: &[u8], lim: Option<u64>, target: usize, fmode: usize, fired: &std::rc::Rc<std::cell::RefCell<usize>>) {
    let l = lim.unwrap_or(u64::MAX);
    let mut d = Dest { d: Vec::new(), short: 0, eintr: 0, err: 0, zero: 0, fired: 0 };
    match fmode { 1 => d.err = 1, 2 => { d.eintr = 1; d.short = 1 } 3 => d.zero = 1, 4 => { d.err = 1; d.short = 1 } _ => {} }
    let _ = target;
    let res = tune(f.data.save(), param(3) / 10, lim, 1, param(3) % 10).write_to(&mut d);
    let hard = d.fired + *fired.borrow() > 0;
    ck(14, d.d.len() as u64 <= l, "more written than the size limit");
    ck(14, is_prefix(&d.d, c), "not a prefix of the field");
    ck(19, is_prefix(&d.d, c), "not a prefix of the field");
    match res {
        SaveResult::Full(n) => {
            reach("write_to complete");
            ck(14, c.len() as u64 <= l, "complete although the field is over the size limit");
            for p in [14, 17, 19] { ck(p, n == d.d.len() as u64 && d.d.len() == c.len() && same(&d.d, c), "complete but not the whole field"); }
            ck(19, !hard, "complete although a fault struck");
        }
        SaveResult::Partial(n, PartialReason::SizeLimit) => { reach("write_to size limit"); ck(14, c.len() as u64 > l, "stopped by the size limit although the field fits"); for p in [14, 19] { ck(p, n == d.d.len() as u64, "wrong count"); } ck(19, !hard, "a fault reported as the size limit"); }
        SaveResult::Partial(n, PartialReason::IoError(_)) => { reach("write_to fault"); for p in [14, 17, 19] { ck(p, hard, "an error without a fault"); } ck(19, n <= d.d.len() as u64, "more reported than written"); ck(19, n == d.d.len() as u64 || d.fired > 0, "wrong count"); }
        SaveResult::Partial(_, _) => bad("odd reason"),
        SaveResult::Error(_) => { reach("write_to error"); for p in [14, 17, 19] { ck(p, hard, "an error without a fault"); } }
    }
    let have = d.d.len();
    let mut rest = Vec::new();
    if f.data.read_to_end(&mut rest).is_err() { check(*fired.borrow() > 0, "the rest of the field fails to be read"); return; }
    check(have + rest.len() == c.len() && same(&rest, &c[have..]), "bytes of the field are lost or repeated");
}

pub(crate) struct F { pub name: &'static str, pub file: Option<&'static str>, pub ct: Option<&'static str>, pub data: Vec<u8>, pub text: bool }
const NAMES: [&str; 4] = ["a", "", "b", "A"];
/// a request of fields by digit (from the left, after a leading 9): 0 text, 1 file, 2 text too long for a small threshold, 3 empty text, 4 empty file, 5 html with a filename, 6 a 10 KB file, 7 an image type with an +xml suffix, 8 a type with text in its subtype
pub(crate) fn fields(conf: usize, n: usize, names: usize) -> Vec<F> {
    let mut ks = Vec::new();
    let mut c = conf;
    while c >= 10 { ks.push(c % 10); c /= 10; }
    ks.reverse();
    let mut v = Vec::new();
    for (i, k) in ks.iter().enumerate() {
        let name = NAMES[match names { 0 => choose(3), 1 => i % 3, 3 => i % 2 * 3, _ => 0 }];
        let mut s = sym_bytes(n);
        for b in s.iter() { assume(*b < 0x80); }
        if *k == 2 { s.extend_from_slice(b"a longer value"); }
        if *k == 3 || *k == 4 { s.clear(); }
        if *k == 6 { let mut b = vec![b'-'; 10240]; b.extend_from_slice(&s); s = b; }
        assume(!occurs(&s, b"--b"));
        v.push(match *k {
            1 | 4 | 6 => F { name, file: Some("x/../../y"), ct: Some("application/octet-stream"), data: s, text: false },
            5 => F { name, file: Some(""), ct: Some("text/html"), data: s, text: true },
            7 => F { name, file: None, ct: Some("image/svg+xml"), data: s, text: false },
            8 => F { name, file: None, ct: Some("application/text"), data: s, text: false },
            _ => F { name, file: None, ct: None, data: s, text: true },
        });
    }
    v
}
pub(crate) fn request(v: &[F]) -> (Vec<u8>, Vec<usize>) {
    let mut b = Vec::with_capacity(512);
    let mut at = Vec::new();
    for f in v.iter() { b.extend_from_slice(&head(f.name, f.file, f.ct)); at.push(b.len()); b.extend_from_slice(&f.data); b.extend_from_slice(b"\r\n"); }
    b.extend_from_slice(b"--b--\r\n");
    (b, at)
}
/// the saved fields are exactly the first `n` of `v` not in `skip`, grouped and in order, each where the threshold puts it
fn entries_are(e: &Entries, v: &[F], upto: usize, short: bool, skip: &[usize], cut: &[(usize, usize)], thr: u64, lim: u64, prop: &[usize], root: &[u8]) {
    let mut total = 0;
    for name in NAMES.iter() {
        let want: Vec<usize> = (0..upto).filter(|i| v[*i].name == *name && !skip.contains(i)).collect();
        total += want.len();
        let got = e.fields.get(*name);
        let n = got.map_or(0, |g| g.len());
        for p in prop { ck(*p, n == want.len(), "wrong number of fields under a name"); ck(*p, got.is_none() || n > 0, "an empty group"); }
        if n != want.len() { continue; }
        for (j, i) in want.iter().enumerate() {
            let s = &got.unwrap()[j];
            let f = &v[*i];
            let d = match stored(&s.data) { Some(d) => d, None => bad("a saved file is not there") };
            // the body ended inside this field
            if short && *i + 1 == upto { for p in prop { ck(*p, is_prefix(&d, &f.data), "the saved bytes are not a prefix of the field"); } continue; }
            let c = cut.iter().find(|c| c.0 == *i).map_or(f.data.len(), |c| c.1);
            for p in prop {
                ck(*p, same(&d, &f.data[..c]) & (s.data.size() == c as u64), "a saved field is not the field's content");
                ck(*p, file_len(&s.data).unwrap_or(c as u64) == c as u64, "a saved file has other bytes too");
                ck(*p, &*s.headers.name == f.name && s.headers.filename.as_ref().map(|x| &**x) == f.file && s.headers.content_type.as_ref().map(|m| m.to_string()) == f.ct.map(|c| c.to_string()), "the headers are not the field's");
            }
            let mem = f.data.len() as u64 <= thr || lim <= thr;
            if c == f.data.len() {
                ck(15, s.data.is_memory() == mem, "the field is not where the threshold puts it");
                match s.data {
                    SavedData::Text(_) => ck(16, f.text && param(4) % 10 != 2, "text which should not be"),
                    SavedData::Bytes(_) => ck(16, !f.text || param(4) % 10 == 2, "not text"),
                    SavedData::File(ref p, _) => { let p = path_bytes(p); ck(20, p.len() == root.len() + 13 && p.starts_with(root), "the file is outside its directory"); }
                }
            }
            if prop.contains(&17) { read_back(&s.data, &d); }
        }
    }
    for p in prop { ck(*p, e.fields_count() as usize == total && e.is_empty() == (total == 0), "wrong count of fields"); let mut k = 0; for g in e.fields.values() { k += g.len(); } ck(*p, k == total, "other fields too"); }
}
/// through the reading adapter, in symbolic steps
fn read_back(d: &SavedData, want: &[u8]) {
    let mut r = match d.readable() { Ok(r) => r, Err(_) => bad("the saved data cannot be read") };
    let mut got = Vec::new();
    let how = if want.len() > 64 { 2 } else { choose(3) };
    loop {
        match how {
            0 => { let mut b = [0u8; 3]; match r.read(&mut b) { Ok(0) => break, Ok(n) => got.extend_from_slice(&b[..n]), Err(_) => bad("the saved data cannot be read") } }
            1 => { let n = match r.fill_buf() { Ok(b) => { let k = if b.len() > 2 { 2 } else { b.len() }; got.extend_from_slice(&b[..k]); k } Err(_) => bad("the saved data cannot be read") }; if n == 0 { break; } r.consume(n); }
            _ => { if r.read_to_end(&mut got).is_err() { bad("the saved data cannot be read") } break; }
        }
        if got.len() > want.len() { break; }
    }
    check(same(&got, want), "reading the saved data back gives something else");
}

/// A whole request saved.
/// p: property, configuration, n symbolic bytes each, names, policy, method, limits, count mode, faults, resume
#[no_mangle] pub extern "C" fn h_entries() {
    let (prop, conf, n, names, policy, method, lmode, cmode, fmode, resume) = (param(0), param(1), param(2), param(3), param(4) % 10, param(5), param(6), param(7), param(8), param(9));
    let v = fields(conf, n, names);
    let (body, at) = request(&v);
    let mut src = Src::new(body);
    let fired = std::rc::Rc::new(std::cell::RefCell::new(0usize));
    src.shared = Some(fired.clone());
    if fmode == 5 { src.err = 1; }
    if fmode == 6 { src.piece = 20; src.eintr = 1; }
    if fmode == 7 { src.err = 1; src.piece = 40; }
    // a transport that ends early, anywhere
    if fmode == 8 { let k = choose(src.d.len() - 3); src.d.truncate(k); }
    let _ = at;
    let (lim, thr) = limits(lmode);
    let l = lim.unwrap_or(u64::MAX);
    let cl: Option<u32> = match cmode { 0 => None, 1 => Some(u32s()), k => Some((k - 2) as u32) };
    let cnt = if param(4) / 10 == 3 { 256 } else { cl.unwrap_or(u32::MAX) as usize };
    let e = env();
    if method == 0 { e.add_dir(b"/w/own"); }
    let b = before();
    let mut mp = Multipart::with_body(src, "b");
    e.f = match fmode {
        1 => Faults { err_write: 1, ..Faults::default() },
        2 => Faults { eintr_write: 1, short_write: 1, ..Faults::default() },
        3 => Faults { err_open: 1, ..Faults::default() },
        4 => Faults { err_mkdir: 1, ..Faults::default() },
        _ => Faults::default(),
    };
    let res = {
        let mut s = mp.save();
        let order = param(4) / 10;
        if order == 2 { s = s.count_limit(1); }
        if order != 1 && order != 3 { s = s.count_limit(cl); }
        s = tune(s, order, lim, thr, policy);
        if order == 1 { s = s.count_limit(cl); }
        match method {
            0 => s.with_dir("/w/own/store"),
            1 => s.temp(),
            2 => s.with_entries(Entries::new(SaveDir::Perm("/w/late".into()))),
            _ => s.temp_with_prefix("pre"),
        }
    };
    e.f = Faults::default();
    let hard = |e: &crate::env::Env, fired: &std::rc::Rc<std::cell::RefCell<usize>>| e.fired_write + e.fired_open + e.fired_mkdir + *fired.borrow() > 0;
    let h = hard(e, &fired);
    let cut_body = fmode == 8;
    let stop = (0..v.len()).find(|i| v[*i].data.len() as u64 > l || *i >= cnt);
    let all = [14, 15, 16, 17, 18, 19, 20, 21];
    // everything new is inside the directory
    let mut dirs = 0;
    let root: Vec<u8> = match method { 0 => b"/w/own/store".to_vec(), 2 => b"/w/late".to_vec(), m => {
        let mut r = Vec::new();
        for i in created(&b) { let nd = &env().nodes[i]; if nd.dir { r = nd.path.clone(); dirs += 1; } }
        if dirs > 0 { let pre: &[u8] = if m == 1 { b"/tmp/multipart-rs" } else { b"/tmp/pre" }; ck(20, dirs == 1 && r.starts_with(pre) && r.len() > pre.len(), "not one directory in the temporary directory"); }
        r
    } };
    for i in created(&b) {
        let nd = &env().nodes[i];
        let inside = nd.path == root || (!nd.dir && nd.path.len() == root.len() + 13 && nd.path.starts_with(&root) && nd.path[root.len()] == b'/' && nd.path[root.len() + 1..].iter().all(|c| c.is_ascii_alphanumeric()));
        ck(20, inside, "created something outside the directory of the request");
        ck(14, nd.dir || nd.data.len() as u64 <= l, "more bytes on disk than the size limit");
    }
    ck(20, e.trunc_existing == 0, "a file was truncated");
    ck(19, e.open_fds() == 0, "a file is left open");
    let (mut entries, partial, why) = match res {
        SaveResult::Full(x) => {
            reach("request saved");
            for p in [18, 14, 21] { ck(p, stop.is_none(), "complete although a limit was exceeded"); }
            for p in [19, 21] { ck(p, !h, "complete although a fault struck"); }
            ck(19, !cut_body, "complete although the body was cut short");
            entries_are(&x, &v, v.len(), false, &[], &[], thr, l, &[14, 17, 18, 19, 21], &root);
            return saved_dir(x, method, &b, &root);
        }
        SaveResult::Partial(p, w) => (p.entries, p.partial, w),
        SaveResult::Error(_) => { reach("request save error"); for p in all { ck(p, h, "an error without a fault"); } return; }
    };
    let done = entries.fields_count() as usize;
    for p in [18, 14, 19, 21] { ck(p, done <= cnt, "more fields than the count limit"); }
    if done > v.len() { bad("more fields than the request has"); }
    entries_are(&entries, &v, done, cut_body, &[], &[], thr, l, &[14, 17, 18, 19, 21], &root);
    match why {
        PartialReason::CountLimit => {
            reach("count limit");
            for p in [18, 21] { ck(p, done == cnt && v.len() > cnt, "stopped by the count limit without need"); }
            ck(19, !h, "a fault reported as the count limit");
            ck(14, stop.map_or(false, |s| s == cnt), "a size limit reported as the count limit");
        }
        PartialReason::SizeLimit => {
            reach("request size limit");
            for p in [14, 21] { ck(p, stop == Some(done) && v[done].data.len() as u64 > l, "stopped by the size limit without need"); }
            ck(18, done < cnt, "a count limit reported as the size limit");
            ck(19, !h, "a fault reported as the size limit");
        }
        PartialReason::IoError(_) => { reach("request fault"); for p in all { ck(p, h || cut_body || fmode == 6, "an error without a fault"); } }
        PartialReason::Utf8Error(_) => { for p in all { ck(p, false, "UTF-8 error on valid text"); } }
    }
    // account for the field which was being saved
    let mut took = Vec::new();
    let mut next = done;
    if let Some(mut p) = partial {
        next = done + 1;
        if done >= v.len() { bad("a field which the request does not have"); }
        let f = &v[done];
        for q in [14, 17, 18, 19, 21] { ck(q, &*p.source.headers.name == f.name, "the partial field has another name"); }
        let mut have = 0;
        if let Some(ref d) = p.dest {
            reach("partial field has data");
            let s = match stored(d) { Some(s) => s, None => bad("the partial file is not there") };
            have = s.len();
            for q in [14, 17, 19, 21] { ck(q, is_prefix(&s, &f.data), "the stored bytes are not a prefix of the field"); }
            ck(14, have as u64 <= l, "more bytes stored than the size limit");
        }
        if prop == 21 || prop == 18 || prop == 19 || prop == 14 {
            match resume {
                // the caller keeps what is there and goes on
                1 => { let n0 = entries.fields_count(); let had = p.dest.is_some();
                       let x = multipart::server::save::PartialEntries { entries, partial: Some(p) }.keep_partial();
                       if had { took.push((done, have)); check(x.fields_count() == n0 + 1, "keeping a partial field does not count it"); } else { check(x.fields_count() == n0, "nothing to keep was counted"); }
                       let skip = if had { vec![] } else { vec![done] };
                       return go_on(mp, x, &v, next, skip, took, thr, fmode, fired, &root);
                     }
                // the caller finishes the field by hand
                _ => {
                    let mut rest = Vec::new();
                    if p.source.data.read_to_end(&mut rest).is_err() { check(h || cut_body || *fired.borrow() > 0, "the rest of the field fails to be read"); return; }
                    if cut_body { check(is_prefix(&rest, &f.data[have..]) || h, "bytes of the field are repeated or altered"); } else { check(have + rest.len() == f.data.len() && same(&rest, &f.data[have..]), "bytes of the field are lost or repeated"); }
                    if p.dest.is_some() { took.push((done, have)); }
                }
            }
        }
    } else if prop == 21 || prop == 18 || prop == 19 { check(h || cut_body || fmode == 6, "stopped between fields without a fault"); }
    if matches!(why, PartialReason::CountLimit) || matches!(why, PartialReason::SizeLimit) { for p in [14, 18, 21] { ck(p, next == done + 1, "the field which hit the limit is not returned"); } }
    if prop == 21 || prop == 18 || prop == 19 {
        entries.recount_fields();
        let skip: Vec<usize> = if next > done { vec![done] } else { vec![] };
        if cut_body { return; }
        go_on(mp, entries, &v, next, skip, vec![], thr, fmode, fired, &root);
    }
}
/// resume with what was returned, without limits: the remaining fields are added, the others stay
fn go_on(mut mp: Multipart<Src>, entries: Entries, v: &[F], next: usize, skip: Vec<usize>, cut: Vec<(usize, usize)>, thr: u64, fmode: usize, fired: std::rc::Rc<std::cell::RefCell<usize>>, root: &[u8]) {
    let n0 = *fired.borrow();
    let r = mp.save().size_limit(None).count_limit(None).memory_threshold(thr).with_entries(entries);
    match r {
        SaveResult::Full(x) => {
            reach("resumed");
            let _ = next;
            check(fmode != 8, "complete although the body was cut short");
            entries_are(&x, v, v.len(), false, &skip, &cut, thr, u64::MAX, &[21, 18, 19, 14], root);
        }
        SaveResult::Partial(p, why) => {
            check(*fired.borrow() > n0 || (n0 > 0 && matches!(why, PartialReason::IoError(_))) || fmode == 6 || fmode == 8, "resuming stops without a fault");
            let _ = p;
        }
        SaveResult::Error(_) => check(*fired.borrow() > n0 || fmode == 8, "resuming fails without a fault"),
    }
}
/// the request's directory after it is dropped, kept, deleted or taken over
fn saved_dir(mut x: Entries, method: usize, b: &Before, root: &[u8]) {
    if param(0) != 20 { return; }
    let temp = method == 1 || method == 3;
    check(x.save_dir.is_temporary() == temp, "wrong kind of directory");
    check(path_bytes(x.save_dir.as_path()) == root, "the directory is not the one reported");
    let inside = created(b).len();
    match choose(4) {
        0 => { drop(x); let k = created(b).len(); if temp { reach("temporary removed"); check(k == 0, "a temporary directory is left behind"); } else { check(k == inside, "a permanent directory lost something"); } }
        1 => { x.save_dir.keep(); check(!x.save_dir.is_temporary() && path_bytes(x.save_dir.as_path()) == root, "keep changed the directory"); x.save_dir.keep(); drop(x); reach("kept"); check(created(b).len() == inside, "a kept directory lost something"); }
        2 => { let p = x.save_dir.into_path(); check(path_bytes(&p) == root && created(b).len() == inside, "a directory taken over lost something"); }
        _ => { let had = env().find(root).is_some(); let r = x.save_dir.delete(); check(r.is_ok() || !had, "deleting fails"); reach("deleted"); check(created(b).len() == 0, "deleting leaves something"); }
    }
    for i in 0..b.n { check(env().nodes[i].alive, "something which was there before is gone"); }
}

/// entries which hold fields before the save, and were edited since they were counted
#[no_mangle] pub extern "C" fn h_recount() {
    let edit = param(0);
    let v = fields(9010, 1, 1);
    let (body, _) = request(&v);
    let mut first = Multipart::with_body(Src::new(body.clone()), "b");
    let mut e = match first.save().memory_threshold(1 << 20).with_dir("/w/one") { SaveResult::Full(e) => e, _ => bad("saving fails") };
    check(e.fields_count() == 3, "wrong count");
    let mut have = 3;
    match edit {
        1 => { e.fields.remove("a"); have -= 1; }
        2 => { let x = e.fields.remove("b").unwrap_or_else(|| bad("no field")); for f in x { e.fields.get_mut("a").unwrap_or_else(|| bad("no field")).push(f); } e.fields.get_mut("a").unwrap_or_else(|| bad("no field")).pop(); have -= 1; }
        _ => {}
    }
    if edit >= 3 {
        // more fields than the default limit
        let g = e.fields.get_mut("b").unwrap_or_else(|| bad("no field"));
        let h = g[0].headers.clone();
        for _ in 0..edit { g.push(SavedField { headers: h.clone(), data: SavedData::Bytes(Vec::new()) }); }
        let mut m = Multipart::with_body(Src::new(body), "b");
        let limit = choose(3);
        let r = { let s = m.save().memory_threshold(1 << 20); match limit { 0 => s, 1 => s.count_limit(None), _ => s.count_limit(5).count_limit(u32::MAX) }.with_entries(e) };
        reach("pre-existing entries");
        let all = edit + 3;
        let (x, full) = match r { SaveResult::Full(x) => (x, true), SaveResult::Partial(p, PartialReason::CountLimit) => (p.entries, false), _ => bad("not what a count limit does") };
        let cl = if limit == 0 { 256 } else { usize::MAX };
        check(full == (all + 3 <= cl), "complete although over the count limit, or the reverse");
        let want = if all + 3 <= cl { all + 3 } else if all > cl { all } else { cl };
        check(x.fields_count() as usize == want, "not as many fields as the limit allows");
        return;
    }
    let cl = u32s();
    let mut m = Multipart::with_body(Src::new(body), "b");
    let (x, done, why) = match m.save().count_limit(cl).memory_threshold(1 << 20).with_entries(e) {
        SaveResult::Full(x) => (x, true, false),
        SaveResult::Partial(p, PartialReason::CountLimit) => (p.entries, false, true),
        _ => bad("not what a count limit does"),
    };
    reach("pre-existing entries");
    let all = have + 3;
    check(done == (cl as usize >= all), "complete although over the count limit, or the reverse");
    check(done || why, "reason");
    let want = if cl as usize > have { if (cl as usize) < all { cl as usize } else { all } } else { have };
    check(x.fields_count() as usize == want, "not as many fields as the limit allows");
    let mut k = 0; for g in x.fields.values() { k += g.len(); }
    check(k == want, "the count is not the number of fields");
}
