//! Field headers: C07, C08.
use crate::h_read::{closing, part};
use crate::prim::*;
use crate::util::*;
use multipart::server::Multipart;
use std::io::Read;

fn is_tok(c: u8) -> bool {
    (c > 0x20) & (c < 0x7f) & (c != b'(') & (c != b')') & (c != b',') & (c != b'/') & (c != b':') & (c != b';') & (c != b'<') & (c != b'=') & (c != b'>') & (c != b'?') & (c != b'@') & (c != b'[')
        & (c != b'\\') & (c != b']') & (c != b'{') & (c != b'}') & (c != b'"')
}
/// symbolic text of n bytes that may stand inside quotes: no quote, no control characters, no backslash at the end or before another (which might be read as escapes); well-formed UTF-8 by construction of the classes
fn quoted_text(n: usize, wide: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n * 3);
    let mut i = 0;
    while i < n {
        if i < wide {
            // a two byte character
            let (a, b) = (u8s(), u8s());
            assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            v.push(a); v.push(b);
        } else {
            let c = u8s();
            let esc = (i + 1 == n) | v.last().map_or(false, |p| *p == b'\\');
            assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & !((c == b'\\') & esc));
            v.push(c);
        }
        i += 1;
    }
    v
}
/// flips the case of the letters at the chosen positions symbolically
fn flip(s: &[u8], at: &[usize]) -> Vec<u8> {
    let mut v = s.to_vec();
    for i in at { let b = u8s(); assume(b <= 1); if v[*i].is_ascii_alphabetic() { v[*i] ^= b << 5; } }
    v
}
/// equal but for letter case, without branches
fn nocase(a: &[u8], w: &[u8]) -> bool {
    if a.len() != w.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(w) { r &= (*x | if y.is_ascii_lowercase() { 0x20 } else { 0 }) == *y; }
    r
}
/// letters, with dashes where they are in `Content-Transfer-Encoding`; the last is any token character
/// (m and X look alike the delimiter to the search for it: long words go without)
fn word(s: &mut [u8], dashes: &[usize]) {
    let n = s.len();
    for (i, c) in s.iter_mut().enumerate() {
        if dashes.contains(&i) { *c = b'-'; } else if i + 1 == n { assume(is_tok(*c) & (*c != b'-')); } else { assume(((*c | 0x20) >= b'a') & ((*c | 0x20) <= b'z') & ((n < 12) | (*c != b'm') & (*c != b'X'))); }
    }
}
fn spaces(n: usize) -> Vec<u8> { vec![b' '; n] }

/// Well-formed header blocks. p: name length, filename length (99 = none), two byte characters in each, layout, letter flips, quoted?
#[no_mangle] pub extern "C" fn h_c07() {
    let (n, k, wide, layout, flips) = (param(0), param(1), param(2), param(3), param(4));
    let name = quoted_text(n, wide);
    let file = if k == 99 { Vec::new() } else { quoted_text(k, wide) };
    let np = cat(&[b"name=\"", &name, b"\""]);
    let fp = cat(&[b"filename=\"", &file, b"\""]);
    let xp: &[u8] = b"x=\"1;name=\"";
    let s1 = spaces([1, 0, 2][layout % 3]);
    let sep = cat(&[b";", &s1]);
    // parameter order
    let order = (layout / 3) % 4;
    let params = if k == 99 {
        match order { 0 => np.clone(), 1 => cat(&[&np, &sep, xp]), 2 => cat(&[xp, &sep, &np]), _ => cat(&[&np, b";"]) }
    } else {
        match order { 0 => cat(&[&np, &sep, &fp]), 1 => cat(&[&fp, &sep, &np]), 2 => cat(&[xp, &sep, &fp, &sep, &np]), _ => cat(&[&np, &sep, xp, &sep, &fp]) }
    };
    let cdn = if flips > 0 { flip(b"Content-Disposition", &[0, 8, 13][..flips]) } else { b"Content-Disposition".to_vec() };
    let ctn = if flips > 0 { flip(b"Content-Type", &[3, 8][..1]) } else { b"Content-Type".to_vec() };
    let cd = cat(&[&cdn, b":", &s1, b"form-data", &sep, &params, b"\r\n"]);
    let which = (layout / 12) % 4;
    let (ct, want): (Vec<u8>, Option<&str>) = match which {
        0 => (Vec::new(), None),
        1 => (cat(&[&ctn, b":", &s1, b"text/plain\r\n"]), Some("text/plain")),
        2 => (cat(&[&ctn, b": image/png; a=b\r\n"]), Some("image/png; a=b")),
        _ => (cat(&[&ctn, b": application/octet-stream\r\n"]), Some("application/octet-stream")),
    };
    let hs = match (layout / 48) % 3 {
        0 => cat(&[&cd, &ct]),
        1 => cat(&[&ct, &cd]),
        _ => cat(&[b"X-Other: name=\"no\"\r\n", &ct, &cd, b"Content-Length: 3\r\n"]),
    };
    assume(!occurs(&hs, b"--X"));
    let d = cat(&[b"--X\r\n", &hs, b"\r\nabc\r\n", &part(b"X", b"z", b""), &closing(b"X")]);
    let mut m = Multipart::with_body(Src::new(d), "X");
    let mut f = match m.read_entry() { Ok(Some(f)) => f, Ok(None) => fail("end reported although a field follows"), Err(_) => fail("well-formed headers are rejected") };
    observe_bytes(f.headers.name.as_bytes());
    check(f.headers.name.len() == name.len(), "field name differs");
    check(same(f.headers.name.as_bytes(), &name), "field name differs");
    match f.headers.filename.as_ref() {
        None => check(k == 99, "filename is lost"),
        Some(x) => {
            observe_bytes(x.as_bytes());
            check(k != 99, "filename made up");
            check(x.len() == file.len(), "filename differs");
            check(same(x.as_bytes(), &file), "filename differs");
        }
    }
    match (f.headers.content_type.as_ref(), want) {
        (None, None) => {}
        (Some(c), Some(w)) => check(c.as_ref() == w, "content type differs"),
        _ => fail("content type lost or made up"),
    }
    check(f.is_text() == (which < 2), "is_text is wrong");
    let mut v = Vec::new();
    match std::io::Read::read_to_end(&mut f.data, &mut v) { Ok(_) => check(same(&v, b"abc"), "content differs"), Err(_) => fail("error while reading the content") }
    drop(f);
    match m.read_entry() { Ok(Some(f)) => { check(&*f.headers.name == "z", "next field"); check(f.headers.filename.is_none(), "filename leaks into the next field"); check(f.headers.content_type.is_none(), "content type leaks into the next field"); } _ => fail("next field is lost") }
    reach("c07 headers decoded");
}
/// Content types and unquoted values. p: kind, symbolic bytes
#[no_mangle] pub extern "C" fn h_c07_misc() {
    let (kind, n) = (param(0), param(1));
    let mut t = sym_bytes(n);
    if kind < 14 { for c in t.iter_mut() { assume(is_tok(*c) & (*c != b'+') & (*c != b'.')); } } else { word(&mut t, if kind < 16 { &[] } else { &[7, 16] }); }
    match kind {
        0 | 11 => { for c in t.iter() { assume((*c >= b'a') & (*c <= b'z')); } }
        _ => {}
    }
    let (hs, name, ct): (Vec<u8>, Vec<u8>, Option<Vec<u8>>) = match kind {
        // content type with a free subtype
        0 => (cat(&[b"Content-Disposition: form-data; name=\"n\"\r\nContent-Type: text/", &t, b"\r\n"]), b"n".to_vec(), Some(cat(&[b"text/", &t]))),
        // unquoted token as the name
        1 => (cat(&[b"Content-Disposition: form-data; name=", &t, b"\r\n"]), t.clone(), None),
        2 => (cat(&[b"Content-Disposition: form-data; name=", &t, b"; filename=f\r\n"]), t.clone(), None),
        // parameter names that only end in or contain "name"
        3 => (cat(&[b"Content-Disposition: form-data; ", &t, b"name=\"no\"; name=\"n\"\r\n"]), b"n".to_vec(), None),
        // extra headers whose names only contain the real ones
        5 => (cat(&[&t, b"Content-Type: a/b\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), None),
        6 => (cat(&[b"Content-Type", &t, b": a/b\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), None),
        7 => (cat(&[&t, b"Content-Disposition: form-data; name=\"no\"; filename=\"f\"\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), None),
        8 => (cat(&[b"Content-Disposition", &t, b": form-data; name=\"no\"; filename=\"f\"\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), None),
        // long values: a name with the look of parameters, a filename, another header first
        10 => { let v = cat(&[b"; filename=zz; name=q", &[b'x'; 1500], &t, b" ; x="]); (cat(&[b"Content-Disposition: form-data; name=\"", &v, b"\"\r\n"]), v, None) }
        11 => (cat(&[b"Content-Type: text/x-", &[b'y'; 2000], &t, b"\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), Some(cat(&[b"text/x-", &[b'y'; 2000], &t]))),
        12 => (cat(&[b"X-Long: ", &vec![b'z'; 5000], b" ", &t, b"\r\nContent-Disposition: form-data; name=\"n\"; filename=\"f\"\r\n"]), b"n".to_vec(), None),
        // four headers are the most a block may have
        13 => (cat(&[b"A: ", &t, b"\r\nB: 2\r\nC: name=\"no\"\r\nContent-Disposition: form-data; name=\"n\"; filename=\"f\"\r\n"]), b"n".to_vec(), None),
        // other parameters and headers, whatever they are called
        14 => (cat(&[b"Content-Disposition: form-data; name=\"n\"; ", &t, b"=\"v\"\r\n"]), b"n".to_vec(), None),
        15 => (cat(&[b"Content-Disposition: form-data; ", &t, b"=v; name=\"n\"; filename=\"f\"\r\n"]), b"n".to_vec(), None),
        16 => (cat(&[&t, b": text/html\r\nContent-Disposition: form-data; name=\"n\"\r\n"]), b"n".to_vec(), None),
        17 => (cat(&[b"Content-Disposition: form-data; name=\"n\"; filename=\"f\"\r\n", &t, b": base64\r\n"]), b"n".to_vec(), None),
        // no white space at all
        _ => (cat(&[b"Content-Disposition:form-data;name=\"", &t, b"\";filename=\"f\"\r\n"]), t.clone(), None),
    };
    if kind >= 14 { for w in [&b"name"[..], b"filename", b"content-type", b"content-disposition"].iter() { assume(!nocase(&t, w)); } }
    if kind >= 5 && kind < 9 { assume(t.len() > 0); }
    if kind == 3 { assume(t.len() > 0); assume(!occurs(&t, b"file") ); }
    assume(!occurs(&hs, b"--X"));
    let with_file = [2, 9, 12, 13, 15, 17].contains(&kind);
    let d = cat(&[b"--X\r\n", &hs, b"\r\nabc\r\n", &closing(b"X")]);
    let mut src = Src::new(d);
    if param(2) > 0 { src.piece = param(2); }
    let mut m = Multipart::with_body(src, "X");
    let mut f = match m.read_entry() { Ok(Some(f)) => f, Ok(None) => fail("end reported although a field follows"), Err(_) => fail("well-formed headers are rejected") };
    observe_bytes(f.headers.name.as_bytes());
    check(f.headers.name.len() == name.len(), "field name differs");
    check(same(f.headers.name.as_bytes(), &name), "field name differs");
    match f.headers.filename.as_ref() { None => check(!with_file, "filename is lost"), Some(x) => check(x == "f" && with_file, "filename made up") }
    match (f.headers.content_type.as_ref(), ct) {
        (None, None) => {}
        (Some(c), Some(w)) => { check(c.as_ref().len() == w.len(), "content type differs"); check(same(c.as_ref().as_bytes(), &w), "content type differs"); check(f.is_text(), "is_text is wrong"); }
        _ => fail("content type lost or made up"),
    }
    let mut v = Vec::new();
    check(f.data.read_to_end(&mut v).is_ok() && v == b"abc", "another content");
    reach("c07 misc decoded");
}

// ---- C08: an independent reading of a header block ---------------------------------------------
/// header lines (name, value) or None if the block is not well-formed; the block ends at the first empty line
fn oracle_headers(b: &[u8]) -> Option<(Vec<(usize, usize, usize, usize)>, usize)> {
    let mut v = Vec::new();
    let mut i = 0;
    loop {
        // end of line
        let mut e = i;
        while e < b.len() && b[e] != b'\n' { e += 1; }
        if e >= b.len() { return None; }
        let mut t = e;
        if t > i && b[t - 1] == b'\r' { t -= 1; }
        if t == i { return Some((v, e + 1)); }
        let mut c = i;
        while c < t && b[c] != b':' { if !is_tok(b[c]) { return None; } c += 1; }
        if c >= t || c == i { return None; }
        let (mut vs, mut ve) = (c + 1, t);
        while vs < ve && (b[vs] == b' ' || b[vs] == b'\t') { vs += 1; }
        while ve > vs && (b[ve - 1] == b' ' || b[ve - 1] == b'\t') { ve -= 1; }
        let mut q = vs;
        while q < ve { if b[q] < 0x20 && b[q] != b'\t' || b[q] == 0x7f { return None; } q += 1; }
        v.push((i, c, vs, ve));
        i = e + 1;
    }
}
/// (type is form-data, name, filename) by the grammar: type *(";" key "=" (token / quoted))
fn oracle_disp(v: &[u8]) -> (bool, Option<(usize, usize)>, Option<(usize, usize)>) {
    let trim = |mut s: usize, mut e: usize| { while s < e && (v[s] == b' ' || v[s] == b'\t') { s += 1; } while e > s && (v[e - 1] == b' ' || v[e - 1] == b'\t') { e -= 1; } (s, e) };
    let mut i = 0;
    while i < v.len() && v[i] != b';' { i += 1; }
    let (s, e) = trim(0, i);
    let ok = v[s..e].eq_ignore_ascii_case(b"form-data");
    let (mut name, mut file) = (None, None);
    while i < v.len() {
        i += 1;
        let st = i;
        let mut inq = false;
        while i < v.len() && (inq || v[i] != b';') { if v[i] == b'"' { inq = !inq; } i += 1; }
        let (s, e) = trim(st, i);
        let mut q = s;
        while q < e && v[q] != b'=' { q += 1; }
        if q >= e { continue; }
        let (ks, ke) = trim(s, q);
        let (mut vs, mut ve) = trim(q + 1, e);
        while vs < ve && v[vs] == b'"' { vs += 1; }
        while ve > vs && v[ve - 1] == b'"' { ve -= 1; }
        if v[ks..ke].eq_ignore_ascii_case(b"name") && name.is_none() { name = Some((vs, ve)); }
        if v[ks..ke].eq_ignore_ascii_case(b"filename") && file.is_none() { file = Some((vs, ve)); }
    }
    (ok, name, file)
}
fn verdict(m: &mut Multipart<Src>, block: &[u8]) {
    match m.read_entry() {
        Err(_) => { observe(2); reach("c08 rejected"); }
        Ok(None) => { observe(0); fail("end reported in place of a field"); }
        Ok(Some(f)) => {
            observe(1);
            observe_bytes(f.headers.name.as_bytes());
            reach("c08 accepted");
            let (hs, _) = match oracle_headers(block) { Some(x) => x, None => fail("a malformed header block was accepted") };
            let cd = match hs.iter().find(|h| block[h.0..h.1].eq_ignore_ascii_case(b"content-disposition")) { Some(h) => &block[h.2..h.3], None => fail("a field without Content-Disposition was accepted") };
            let (ok, name, file) = oracle_disp(cd);
            check(ok, "a field that is not form-data was accepted");
            match name { None => fail("a field without a name was accepted"), Some((s, e)) => { check(e - s == f.headers.name.len(), "name differs from the header"); check(same(&cd[s..e], f.headers.name.as_bytes()), "name differs from the header"); } }
            match (file, f.headers.filename.as_ref()) {
                (None, None) => {}
                (Some((s, e)), Some(x)) => { check(e - s == x.len(), "filename differs from the header"); check(same(&cd[s..e], x.as_bytes()), "filename differs from the header"); }
                _ => fail("filename lost or made up"),
            }
            let ct = hs.iter().find(|h| block[h.0..h.1].eq_ignore_ascii_case(b"content-type"));
            match (ct, f.headers.content_type.as_ref()) {
                (None, None) => {}
                (Some(h), Some(c)) => { let t = &block[h.2..h.3]; match std::str::from_utf8(t).ok().and_then(|t| t.parse::<mime::Mime>().ok()) { Some(w) => check(w == *c, "content type differs from the header"), None => fail("an unparsable content type was accepted") } }
                _ => fail("content type lost or made up"),
            }
        }
    }
}
/// a header block with a window of arbitrary bytes. p: template, position of the window, its length
#[no_mangle] pub extern "C" fn h_c08() {
    let (t, at, n) = (param(0), param(1), param(2));
    let base: &[u8] = match t {
        0 => b"Content-Disposition: form-data; name=\"a\"; filename=\"b\"\r\n",
        1 => b"Content-Type: text/plain\r\nContent-Disposition: form-data; name=ab\r\n",
        2 => b"Content-Disposition: form-data; filename=\"name=\"; name=\"n\"\r\nContent-Type: a/b\r\n",
        // windows that replace the whole of something
        3 => b"Content-Disposition: form-data; \r\n",
        4 => b"Content-Disposition: \r\n",
        5 => b"Content-Disposition: form-data; name=a\r\nContent-Type: \r\n",
        _ => b"\r\n",
    };
    let mut s = sym_bytes(n);
    // another type, header name or parameter name
    if t >= 7 { word(&mut s, match t { 7 if n == 9 => &[4], 8 => &[7], _ => &[] }); }
    let block = if t >= 7 {
        match t {
            7 => cat(&[b"Content-Disposition: ", &s, b"; name=\"a\"; filename=\"b\"\r\n"]),
            8 => cat(&[&s, b": form-data; name=\"a\"\r\n"]),
            _ => cat(&[b"Content-Disposition: form-data; ", &s, b"=\"a\"; filename=\"b\"\r\n"]),
        }
    } else if t < 3 {
        let mut b = base.to_vec();
        b[at..at + n].copy_from_slice(&s);
        b
    } else { let p = base.len() - 2; cat(&[&base[..p], &s, &base[p..]]) };
    // the delimiter inside the headers would end the part
    let block = cat(&[&block, b"\r\n"]);
    assume(!occurs(&block, b"--X"));
    let d = cat(&[b"--X\r\n", &block, b"Q\r\n", &closing(b"X")]);
    let mut m = Multipart::with_body(Src::new(d), "X");
    verdict(&mut m, &cat(&[&block, b"Q\r\n"]));
}
/// what follows a delimiter decides. p: symbolic bytes after the delimiter
#[no_mangle] pub extern "C" fn h_c08_delim() {
    let n = param(0);
    let s = sym_bytes(n);
    let d = cat(&[&part(b"X", b"a", b"v"), b"--X", &s, b"Content-Disposition: form-data; name=\"b\"\r\n\r\nw\r\n", &closing(b"X")]);
    let mut m = Multipart::with_body(Src::new(d), "X");
    match m.read_entry() { Ok(Some(_)) => {} _ => fail("first field") }
    let r = m.read_entry();
    match r {
        Ok(Some(f)) => { reach("c08 delimiter ok"); observe(1); check(s[0] == b'\r' && s[1] == b'\n', "a field after an invalid delimiter"); check(&*f.headers.name == "b", "name differs from the header"); if n == 2 { return; } check(is_tok(s[2]) || s[2] == b'\r' || s[2] == b'\n', "a malformed header block was accepted"); }
        Ok(None) => { reach("c08 delimiter end"); observe(0); check(s[0] == b'-' && s[1] == b'-', "clean end after an invalid delimiter"); }
        Err(_) => { reach("c08 delimiter bad"); observe(2); check(n > 2 || !(s[0] == b'\r' && s[1] == b'\n'), "a valid delimiter was rejected"); check(!(s[0] == b'-' && s[1] == b'-'), "a valid closing delimiter was rejected"); }
    }
}
/// header-like data inside a field never becomes a field. p: symbolic bytes
#[no_mangle] pub extern "C" fn h_c08_inner() {
    let s = sym_bytes(param(0));
    let c = cat(&[&s, b"\r\nContent-Disposition: form-data; name=\"evil\"\r\n\r\nw"]);
    assume(!occurs(&c, b"--X"));
    let d = cat(&[&part(b"X", b"a", &c), &closing(b"X")]);
    let mut m = Multipart::with_body(Src::new(d), "X");
    match m.read_entry() { Ok(Some(f)) => check(&*f.headers.name == "a", "first field"), _ => fail("first field") }
    match m.read_entry() { Ok(None) => reach("c08 inner data skipped"), Ok(Some(_)) => fail("a field was made up from data"), Err(_) => fail("error for a well-formed body") }
}
