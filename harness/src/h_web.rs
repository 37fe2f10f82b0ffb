//! Integrations with hyper, iron, nickel and tiny_http: C24, C25.
use crate::env::{env, Faults};
use crate::h_save::{before, created, fields, is_prefix, request, stored};
use crate::prim::*;
use crate::util::*;
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use hyper::server::Request as HyperRequest;
use iron::BeforeMiddleware;
use multipart::server::iron::{Intercept, LimitBehavior};
use multipart::server::nickel::{Maybe, MultipartBody};
use multipart::server::save::Entries;
use multipart::server::{HttpRequest, Multipart};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::rc::Rc;
use std::time::Duration;

pub struct Net { d: Vec<u8>, p: usize, out: Rc<RefCell<Vec<u8>>> }
// never leaves the thread
unsafe impl Send for Net {}
impl Net { fn new(d: Vec<u8>) -> Net { Net { d, p: 0, out: Rc::new(RefCell::new(Vec::new())) } } }
impl Read for Net {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = if self.d.len() - self.p < b.len() { self.d.len() - self.p } else { b.len() };
        b[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
impl Write for Net {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.out.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn addr() -> SocketAddr { SocketAddr::new(std::net::IpAddr::V4(std::net::Ipv4Addr::new(127, 0, 0, 1)), 80) }
impl NetworkStream for Net {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { Ok(addr()) }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
impl std::fmt::Debug for Net { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Net") } }

fn http(method: &[u8], ct: Option<&[u8]>, body: &[u8]) -> Vec<u8> {
    let n = body.len().to_string();
    let mut v = cat(&[method, b" /up HTTP/1.1\r\nHost: h\r\n"]);
    if let Some(c) = ct { v.extend_from_slice(b"Content-Type: "); v.extend_from_slice(c); v.extend_from_slice(b"\r\n"); }
    v.extend_from_slice(&cat(&[b"Content-Length: ", n.as_bytes(), b"\r\n\r\n", body]));
    v
}
/// the one field of the body, read with the multipart reader made from the request
fn one_field<R: Read>(mut m: Multipart<R>) {
    match m.read_entry() {
        Ok(Some(mut f)) => { let mut v = Vec::new(); check(f.data.read_to_end(&mut v).is_ok() && v == b"value" && &*f.headers.name == "f", "the field of the body is not read"); }
        _ => fail("the boundary is not the one of the request"),
    }
    match m.read_entry() { Ok(None) => reach("body read"), _ => fail("the end of the body is not read") }
}
fn all<R: Read>(mut r: R, want: &[u8]) { let mut v = Vec::new(); check(r.read_to_end(&mut v).is_ok() && same(&v, want), "the body was touched") }

/// A request seen through integration `fw` (0 hyper, 1 &mut hyper, 2 iron, 3 nickel, 4 tiny_http);
/// `want`: None not multipart, Some(b) multipart with boundary b; `read`: also read the body with it
fn see(fw: usize, method: &[u8], ct: Option<&[u8]>, body: &[u8], want: Option<&[u8]>, read: bool) {
    let d = http(method, ct, body);
    let verdict = |b: Option<&str>| {
        match (b, want) {
            (Some(b), Some(w)) => { check(same(b.as_bytes(), w), "another boundary"); reach("recognised") }
            (None, None) => reach("not multipart"),
            (Some(_), None) => fail("recognised although it is not a multipart request"),
            (None, Some(_)) => fail("a multipart request is not recognised"),
        }
    };
    if fw == 4 {
        let mut hs = vec![tiny_http::Header::from_bytes(&b"Host"[..], &b"h"[..]).unwrap_or_else(|_| fail("header"))];
        if let Some(c) = ct { hs.push(tiny_http::Header::from_bytes(&b"content-Type"[..], c).unwrap_or_else(|_| fail("header"))); }
        hs.push(tiny_http::Header::from_bytes(&b"Content-Length"[..], body.len().to_string().as_bytes()).unwrap_or_else(|_| fail("header")));
        let m: tiny_http::Method = match std::str::from_utf8(method) { Ok(m) => m.parse().unwrap_or_else(|_| fail("method")), Err(_) => fail("text") };
        let r = tiny_http::new_request(false, m, "/up".to_string(), tiny_http::HTTPVersion(1, 1), hs, addr(), Net::new(body.to_vec()), Net::new(Vec::new()));
        let mut r = match r { Ok(r) => r, Err(_) => fail("tiny_http refuses the request") };
        verdict((&mut r).multipart_boundary());
        if read {
            match Multipart::from_request(&mut r) { Ok(m) => { check(want.is_some(), "recognised although it is not a multipart request"); one_field(m) } Err(q) => { check(want.is_none(), "a multipart request is not recognised"); check(q.url() == "/up", "the request changed"); all(q.as_reader(), body) } }
        }
        // dropping it would answer it
        std::mem::forget(r);
        return;
    }
    let mut net = Net::new(d);
    let mut b = BufReader::new(&mut net as &mut dyn NetworkStream);
    let mut q = match HyperRequest::new(&mut b, addr()) { Ok(q) => q, Err(_) => fail("hyper refuses the request") };
    match fw {
        0 => {
            verdict(q.multipart_boundary());
            if read { match Multipart::from_request(q) { Ok(m) => { check(want.is_some(), "recognised although it is not a multipart request"); one_field(m) } Err(q) => { check(want.is_none(), "a multipart request is not recognised"); all(q, body) } } }
        }
        1 => {
            verdict((&mut q).multipart_boundary());
            if read { match Multipart::from_request(&mut q) { Ok(m) => { check(want.is_some(), "recognised although it is not a multipart request"); one_field(m) } Err(q) => { check(want.is_none(), "a multipart request is not recognised"); all(q, body) } } }
        }
        2 => {
            let mut q = match iron::Request::from_http(q, addr(), &iron::Protocol::http()) { Ok(q) => q, Err(_) => fail("iron refuses the request") };
            verdict((&mut q).multipart_boundary());
            if read { match Multipart::from_request(&mut q) { Ok(m) => { check(want.is_some(), "recognised although it is not a multipart request"); one_field(m) } Err(q) => { check(want.is_none(), "a multipart request is not recognised"); all(&mut q.body, body) } } }
        }
        _ => {
            let data = ();
            let mut q = nickel::Request::from_internal(q, &data);
            verdict(Maybe(&mut q).multipart_boundary());
            if read {
                if choose(2) == 0 {
                    match Multipart::from_request(Maybe(&mut q)) { Ok(m) => { check(want.is_some(), "recognised although it is not a multipart request"); one_field(m) } Err(Maybe(q)) => { check(want.is_none(), "a multipart request is not recognised"); all(&mut q.origin, body) } }
                } else {
                    match q.multipart_body() { Some(m) => { check(want.is_some(), "recognised although it is not a multipart request"); return one_field(m) } None => check(want.is_none(), "a multipart request is not recognised") }
                    all(&mut q.origin, body)
                }
            }
        }
    }
}
fn body_for(b: &[u8]) -> Vec<u8> { cat(&[b"--", b, b"\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\nvalue\r\n--", b, b"--\r\n"]) }
/// characters which every server parses in an unquoted boundary
fn token(c: u8) -> bool { ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'-') | (c == b'_') | (c == b'.') | (c == b'+') }
/// characters of boundaries (RFC 2046)
fn bchar(c: u8) -> bool { token(c) | (c == b'\'') | (c == b'(') | (c == b')') | (c == b',') | (c == b'/') | (c == b':') | (c == b'=') | (c == b'?') }

const TYPES: [(&str, bool); 11] = [("multipart/form-data", true), ("Multipart/Form-Data", true), ("MULTIPART/FORM-DATA", true), ("multipart/mixed", false), ("multipart/form-datax", false), ("xmultipart/form-data", false), ("multipart/form-dat", false), ("text/form-data", false), ("application/x-www-form-urlencoded", false), ("multipart/x-form-data", false), ("application/multipart", false)];
/// Methods and media types.
/// fw, what: 0 media types with the body read, 1 methods with the body read, 2 symbolic method, 3 a symbolic byte of the media type
#[no_mangle] pub extern "C" fn h_web_type() {
    let (fw, what) = (param(0), param(1));
    let body = body_for(b"bound");
    match what {
        0 => {
            let c = choose(TYPES.len() + 1);
            if c == TYPES.len() { return see(fw, b"POST", None, &body, None, true); }
            let (t, ok) = TYPES[c];
            see(fw, b"POST", Some(&cat(&[t.as_bytes(), b"; boundary=bound"])), &body, if ok { Some(b"bound") } else { None }, true)
        }
        1 => { let m: &[u8] = [&b"POST"[..], b"GET", b"PUT", b"PATCH", b"DELETE", b"HEAD", b"OPTIONS", b"POSTS", b"XPOST"][choose(9)]; see(fw, m, Some(b"multipart/form-data; boundary=bound"), &body, if m == b"POST" { Some(b"bound") } else { None }, true) }
        2 => {
            let m = sym_bytes(4);
            let mut post = true;
            for (i, c) in m.iter().enumerate() { assume((*c >= b'A') & (*c <= b'Z')); post &= *c == b"POST"[i]; }
            let want = if post { Some(&b"bound"[..]) } else { None };
            see(fw, &m, Some(b"multipart/form-data; boundary=bound"), &body, want, false)
        }
        _ => {
            let s = b"multipart/form-data";
            let mut t = s.to_vec();
            let k = choose(t.len());
            let c = u8s();
            assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'-') | (c == b'/'));
            t[k] = c;
            let ok = (c | 0x20) == (s[k] | 0x20) && c.is_ascii_alphabetic() == s[k].is_ascii_alphabetic();
            see(fw, b"POST", Some(&cat(&[&t, b"; boundary=bound"])), &body, if ok { Some(b"bound") } else { None }, false)
        }
    }
}
/// Parameters of the content type, the boundary of n symbolic characters.
#[no_mangle] pub extern "C" fn h_web_param() {
    let (fw, form, n) = (param(0), param(1), param(2));
    let read = param(3) == 1;
    let s = if read { b"Bo-un.d_1".to_vec() } else { sym_bytes(n) };
    let quoted = [2, 12, 14, 15, 17].contains(&form);
    for (i, c) in s.iter().enumerate() { if quoted && i > 0 { assume(bchar(*c) | ((*c == b' ') & (i + 1 < n))); } else { assume(token(*c)); } }
    let b = &s[..];
    let p: Vec<u8> = match form {
        0 => cat(&[b"; boundary=", b]),
        1 => cat(&[b";boundary=", b]),
        2 => cat(&[b"; boundary=\"", b, b"\""]),
        3 => cat(&[b"; charset=utf-8; boundary=", b]),
        4 => cat(&[b"; boundary=", b, b"; charset=utf-8"]),
        5 => cat(&[b"; Boundary=", b]),
        6 => cat(&[b"; x=boundary; BOUNDARY=", b]),
        7 => cat(&[b"; xboundary=no; boundary=", b]),
        8 => Vec::new(),
        9 => cat(&[b"; xboundary=", b]),
        10 => cat(&[b"; x=boundary; boundaryx=", b]),
        11 => cat(&[b"; charset=", b]),
        12 => cat(&[b"; boundary=\"", b, b"\"; charset=utf-8"]),
        13 => cat(&[b";  boundary=", b]),
        // inside another parameter's quotes
        14 => cat(&[b"; x=\"y; boundary=", b, b"\""]),
        // hyper's parser stops after quotes or gives up on spaces: tiny_http only
        15 => cat(&[b"; x=\"; boundary=no\"; boundary=\"", b, b"\""]),
        16 => cat(&[b" ; x=1 ; boundary=", b, b" ; y=2"]),
        _ => cat(&[b"; x=\"boundary=no\"; y=z; boundary=\"", b, b"\""]),
    };
    let none = [8, 9, 10, 11, 14].contains(&form);
    see(fw, b"POST", Some(&cat(&[b"multipart/form-data", &p])), &body_for(b), if none { None } else { Some(b) }, read)
}

/// What hyper's client sends is what the servers recognise: headers, boundary, length.
/// fw of the server, method, content length known
pub struct Conn { out: Rc<RefCell<Vec<u8>>> }
impl hyper::net::NetworkConnector for Conn {
    type Stream = Net;
    fn connect(&self, host: &str, port: u16, scheme: &str) -> hyper::Result<Net> {
        check(host == "h" && port == 80 && scheme == "http", "another server");
        let mut n = Net::new(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec());
        n.out = self.out.clone();
        Ok(n)
    }
}
fn client(m: hyper::method::Method, out: &Rc<RefCell<Vec<u8>>>) -> hyper::client::request::Request<hyper::net::Fresh> {
    let url = match hyper::Url::parse("http://h/up") { Ok(u) => u, Err(_) => fail("url") };
    match hyper::client::request::Request::with_connector(m, url, &Conn { out: out.clone() }) { Ok(r) => r, Err(_) => fail("no client request") }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { (0..h.len()).find(|i| h[*i..].starts_with(n)) }
#[no_mangle] pub extern "C" fn h_web_apply() {
    use multipart::client::HttpRequest;
    let n = param(0);
    let s = sym_bytes(n);
    for c in s.iter() { assume(token(*c)); }
    let bnd = match String::from_utf8(s.clone()) { Ok(b) => b, Err(_) => fail("text") };
    let out = Rc::new(RefCell::new(Vec::new()));
    use hyper::method::Method::*;
    let k = choose(5);
    let mut r = client([Post, Get, Put, Head, Delete][k].clone(), &out);
    let len = if param(1) == 0 { if choose(2) == 0 { None } else { Some(u64s()) } } else { [None, Some(0u64), Some(17), Some(4096)][choose(4)] };
    let ok = r.apply_headers(&bnd, len);
    check(ok == (k == 0), "accepts other methods than POST, or not POST");
    if !ok { check(!r.headers().has::<hyper::header::ContentLength>() && !r.headers().has::<hyper::header::ContentType>(), "headers set on a request which cannot be sent"); reach("method refused"); return; }
    match r.headers().get::<hyper::header::ContentLength>() { Some(l) => check(len == Some(l.0), "another length"), None => check(len.is_none(), "no length") }
    let ct = match r.headers().get::<hyper::header::ContentType>() { Some(c) => c.to_string(), None => fail("no content type") };
    check(same(ct.as_bytes(), &cat(&[b"multipart/form-data; boundary=", &s])) || same(ct.as_bytes(), &cat(&[b"multipart/form-data;boundary=", &s])), "not the content type");
    let ct2 = multipart::client::hyper::content_type(&bnd).to_string();
    check(same(ct.as_bytes(), ct2.as_bytes()), "content_type() is another");
    reach("headers applied");
    if param(1) == 1 {
        use multipart::client::HttpStream;
        let mut st = match r.open_stream() { Ok(s) => s, Err(_) => fail("cannot be opened") };
        if let Some(l) = len { check(st.write_all(&vec![b'x'; l as usize]).is_ok(), "cannot be written") }
        match HttpStream::finish(st) { Ok(r) => std::mem::forget(r), Err(_) => fail("cannot be sent") }
        let o = out.borrow();
        check(o.starts_with(b"POST /up HTTP/1.1\r\n"), "not the request line");
        check(find(&o, b"Content-Type: multipart/form-data; boundary=").is_some(), "no content type sent");
        match len { Some(_) => check(find(&o, b"Transfer-Encoding").is_none() && find(&o, &cat(&[b"Content-Length: ", len.unwrap_or(0).to_string().as_bytes(), b"\r\n"])).is_some(), "length not sent"), None => check(find(&o, b"Content-Length").is_none(), "a length sent") }
        reach("head sent");
    }
}
unsafe impl Send for Conn {}
unsafe impl Sync for Conn {}
/// A request sent with hyper's client is recognised by hyper's server and holds the fields.
/// n symbolic characters in each field, how: 0 streamed, 1 buffered, 2 prepared, 3 client_request(), 4 client_request_mut(); streams: the second field is a stream (chunked when prepared) or a text
#[no_mangle] pub extern "C" fn h_web_round() {
    use multipart::client::lazy::Multipart as Lazy;
    let (n, how, streams) = (param(0), param(1), param(2) == 1);
    let s = sym_bytes(n);
    for c in s.iter() { assume(*c < 0x80); }
    assume(!occurs(&s, b"\r\n"));
    let t = match String::from_utf8(s.clone()) { Ok(t) => t, Err(_) => fail("text") };
    let d = if streams { sym_bytes(n) } else { t.clone().into_bytes() };
    if streams { assume(!occurs(&d, b"\r\n")); }
    let out = Rc::new(RefCell::new(Vec::new()));
    let post = hyper::method::Method::Post;
    let mime = "application/octet-stream".parse().ok();
    let mut l = Lazy::new();
    l.add_text("f", &t[..]);
    if streams { l.add_stream("g", &d[..], Some("x.bin"), mime.clone()); } else { l.add_text("g", &t[..]); }
    let fill = |m: &mut dyn FnMut(usize) -> bool| { if !m(0) || !m(1) { fail("writing fails") } };
    let resp = match how {
        0 => {
            let mut m = match multipart::client::Multipart::from_request(client(post, &out)) { Ok(m) => m, Err(_) => fail("refused") };
            fill(&mut |k| if k == 0 { m.write_text("f", &t[..]).is_ok() } else if streams { m.write_stream("g", &mut &d[..], Some("x.bin"), mime.clone()).is_ok() } else { m.write_text("g", &t[..]).is_ok() });
            match m.send() { Ok(r) => r, Err(_) => fail("sending fails") }
        }
        1 => {
            let mut m = match multipart::client::Multipart::from_request_sized(client(post, &out)) { Ok(m) => m, Err(_) => fail("refused") };
            fill(&mut |k| if k == 0 { m.write_text("f", &t[..]).is_ok() } else if streams { m.write_stream("g", &mut &d[..], Some("x.bin"), mime.clone()).is_ok() } else { m.write_text("g", &t[..]).is_ok() });
            match m.send() { Ok(r) => r, Err(_) => fail("sending fails") }
        }
        2 => match l.send(client(post, &out)) { Ok(r) => r, Err(_) => fail("sending fails") },
        _ => {
            let c = hyper::Client::with_connector(Conn { out: out.clone() });
            let r = if how == 3 { l.client_request(&c, "http://h/up") } else { l.client_request_mut(&c, "http://h/up", |b| b.header(hyper::header::UserAgent("me".to_string())).header(hyper::header::ContentType::plaintext())) };
            match r { Ok(r) => r, Err(_) => fail("sending fails") }
        }
    };
    check(resp.status == hyper::status::StatusCode::Ok, "another response");
    std::mem::forget(resp);
    let o = out.borrow().clone();
    let sized = how == 1 || (how >= 2 && !streams);
    check(find(&o, b"Content-Length: ").is_some() == sized && find(&o, b"Transfer-Encoding: chunked").is_some() != sized, "not the kind of body");
    if how == 4 { check(find(&o, b"User-Agent: me\r\n").is_some(), "a header set by the caller is lost"); }
    let mut net = Net::new(o);
    let mut b = BufReader::new(&mut net as &mut dyn NetworkStream);
    let q = match HyperRequest::new(&mut b, addr()) { Ok(q) => q, Err(_) => fail("hyper refuses the request") };
    let mut m = match Multipart::from_request(q) { Ok(m) => m, Err(_) => fail("a multipart request is not recognised") };
    for k in 0..2 {
        let (name, want, file) = if k == 0 { ("f", &s, false) } else { ("g", &d, streams) };
        match m.read_entry() {
            Ok(Some(mut f)) => {
                let mut v = Vec::new();
                check(f.data.read_to_end(&mut v).is_ok() && same(&v, want) && &*f.headers.name == name, "the field sent is not the field received");
                check(f.headers.filename.as_ref().map(|x| &x[..]) == if file { Some("x.bin") } else { None } && f.headers.content_type == if file { mime.clone() } else { None }, "the headers sent are not the headers received");
            }
            _ => fail("no field"),
        }
    }
    match m.read_entry() { Ok(None) => reach("sent and received"), _ => fail("the end of the body is not read") }
}

/// `Switch`: multipart requests go to the one handler, others to the other, untouched.
/// how: what of h_web_type (0 media types, 1 methods)
struct Plain(Vec<u8>, Rc<RefCell<usize>>);
unsafe impl Send for Plain {}
unsafe impl Sync for Plain {}
struct Multi(Rc<RefCell<usize>>);
unsafe impl Send for Multi {}
unsafe impl Sync for Multi {}
impl hyper::server::Handler for Plain {
    fn handle<'a, 'k>(&'a self, q: HyperRequest<'a, 'k>, r: hyper::server::Response<'a, hyper::net::Fresh>) { *self.1.borrow_mut() += 1; all(q, &self.0); std::mem::forget(r); }
}
impl multipart::server::hyper::MultipartHandler for Multi {
    fn handle_multipart<'a, 'k>(&self, m: Multipart<HyperRequest<'a, 'k>>, r: hyper::server::Response<'a, hyper::net::Fresh>) { *self.0.borrow_mut() += 1; one_field(m); std::mem::forget(r); }
}
#[no_mangle] pub extern "C" fn h_web_switch() {
    use hyper::server::Handler;
    let body = body_for(b"bound");
    let (m, t, ok): (&[u8], &[u8], bool) = if param(0) == 0 { let (t, ok) = TYPES[choose(TYPES.len())]; (b"POST", t.as_bytes(), ok) } else { let m: &[u8] = [&b"POST"[..], b"GET", b"PUT", b"PATCH", b"DELETE"][choose(5)]; (m, b"multipart/form-data", m == b"POST") };
    let (p, q) = (Rc::new(RefCell::new(0)), Rc::new(RefCell::new(0)));
    let sw = multipart::server::hyper::Switch::new(Plain(body.clone(), p.clone()), Multi(q.clone()));
    let mut net = Net::new(http(m, Some(&cat(&[t, b"; boundary=bound"])), &body));
    let mut b = BufReader::new(&mut net as &mut dyn NetworkStream);
    let r = match HyperRequest::new(&mut b, addr()) { Ok(r) => r, Err(_) => fail("hyper refuses the request") };
    let mut sink = Net::new(Vec::new());
    let mut hs = hyper::header::Headers::new();
    sw.handle(r, hyper::server::Response::new(&mut sink, &mut hs));
    check(*p.borrow() == if ok { 0 } else { 1 } && *q.borrow() == if ok { 1 } else { 0 }, "not the handler for the request, or not called once");
    reach(if ok { "multipart handler" } else { "other handler" });
}

/// The interceptor.
/// conf (as h_entries), n, names, behaviour (0 throw, 1 continue, 2 default), limits (0 symbolic both, 1 symbolic size, 2 symbolic count, 3 defaults, 4 truncating size), dir (0 default, 1 there, 2 missing), kind (0 multipart, 1 not multipart, 2 body cut short, 3 GET), faults
#[no_mangle] pub extern "C" fn h_intercept() {
    let (conf, n, names, beh, lmode, dir, kind, fmode) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6), param(7));
    let v = fields(conf, n, names);
    let (mut body, _) = request(&v);
    if kind == 2 { let k = choose(body.len() - 3); body.truncate(k); }
    let ct: &[u8] = if kind == 1 { b"multipart/mixed; boundary=b" } else { b"multipart/form-data; boundary=b" };
    let d = http(if kind == 3 { b"GET" } else { b"POST" }, Some(ct), &body);
    let mut net = Net::new(d);
    let mut b = BufReader::new(&mut net as &mut dyn NetworkStream);
    let q = match HyperRequest::new(&mut b, addr()) { Ok(q) => q, Err(_) => fail("hyper refuses the request") };
    let mut q = match iron::Request::from_http(q, addr(), &iron::Protocol::http()) { Ok(q) => q, Err(_) => fail("iron refuses the request") };
    let mut i = Intercept::default();
    let (mut lim, mut cnt) = (2 * 1024 * 1024, 16);
    if lmode == 0 || lmode == 1 { lim = u64s(); i = i.file_size_limit(lim); }
    if lmode == 0 || lmode == 2 { cnt = u32s(); i = i.file_count_limit(cnt); }
    if lmode >= 10 { lim = (lmode - 10) as u64; i = i.file_size_limit(lim); }
    match beh { 0 => i = i.limit_behavior(LimitBehavior::ThrowError), 1 => i = i.limit_behavior(LimitBehavior::Continue), _ => {} }
    let e = env();
    if dir == 1 { e.add_dir(b"/w/t"); i = i.temp_dir_path("/w/t"); }
    if dir == 2 { i = i.temp_dir_path("/w/new"); }
    if dir == 3 { i = i.temp_dir_path("/w/new/deep/er"); }
    let bf = before();
    e.f = match fmode { 1 => Faults { err_write: 1, ..Faults::default() }, 2 => Faults { eintr_write: 1, short_write: 1, ..Faults::default() }, 3 => Faults { err_open: 1, ..Faults::default() }, 4 => Faults { err_mkdir: 1, ..Faults::default() }, _ => Faults::default() };
    let r = i.before(&mut q);
    e.f = Faults::default();
    let fault = e.fired_write + e.fired_open + e.fired_mkdir > 0;
    if kind == 1 || kind == 3 {
        check(r.is_ok(), "another request was rejected");
        check(!q.extensions.contains::<Entries>(), "entries of another request");
        check(created(&bf).is_empty(), "the file system was touched for another request");
        all(&mut q.body, &body);
        reach("not multipart");
        return;
    }
    // the first field over a limit
    let over = (0..v.len()).find(|k| v[*k].data.len() as u64 > lim);
    let many = v.len() as u64 > cnt as u64;
    let rejected = beh != 1 && (over.is_some() || many);
    match r {
        Err(ref x) => {
            check(rejected || fault || kind == 2, "a request within the limits was rejected");
            check(!q.extensions.contains::<Entries>(), "entries of a rejected request");
            if rejected && !fault && kind != 2 {
                let t = x.error.to_string();
                let first_size = over.map_or(false, |k| (k as u64) < cnt as u64);
                check(t.starts_with(if first_size { "File size limit" } else { "File count limit" }), "rejected for another reason");
                if let (true, Some(k)) = (first_size, over) { check(find(t.as_bytes(), &cat(&[b"field \"", v[k].name.as_bytes(), b"\""])).is_some(), "another field is reported"); }
                reach("rejected");
            } else { reach("error"); }
            check(created(&bf).iter().all(|k| env().nodes[*k].path.starts_with(b"/w/new") && !env().nodes[*k].path.starts_with(b"/w/new/multipart") && !env().nodes[*k].path.starts_with(b"/w/new/deep/er/")), "files of a rejected request are left behind");
        }
        Ok(()) => {
            check(!rejected, "a request over the limits was not rejected");
            check(!fault, "accepted although a fault struck");
            check(kind != 2, "accepted although the body was cut short");
            let es = match q.extensions.get::<Entries>() { Some(e) => e, None => fail("no entries for the handler") };
            check(es.fields_count() as usize == v.len(), "not all fields");
            for f in v.iter() {
                let same_name: Vec<usize> = (0..v.len()).filter(|k| v[*k].name == f.name).collect();
                let g = match es.fields.get(f.name) { Some(g) => g, None => fail("a field is missing") };
                check(g.len() == same_name.len(), "a field is missing");
                for (j, k) in same_name.iter().enumerate() {
                    let s = match stored(&g[j].data) { Some(s) => s, None => fail("a saved file is not there") };
                    check(&*g[j].headers.name == v[*k].name && g[j].headers.filename.as_ref().map(|x| &**x) == v[*k].file, "the headers are not the field's");
                    if v[*k].data.len() as u64 <= lim { check(same(&s, &v[*k].data), "a field within the limit is not intact"); } else { check(s.len() as u64 <= lim && is_prefix(&s, &v[*k].data), "an oversized field is not truncated to the limit"); reach("truncated"); }
                }
            }
            reach("accepted");
            let root: &[u8] = match dir { 0 => b"/tmp/multipart-iron", 1 => b"/w/t/multipart-iron", 2 => b"/w/new/multipart-iron", _ => b"/w/new/deep/er/multipart-iron" };
            let parent = |p: &[u8]| p == b"/w/new" || (dir == 3 && (p == b"/w/new/deep" || p == b"/w/new/deep/er"));
            check(es.save_dir.is_temporary() && crate::h_save::path_bytes(es.save_dir.as_path()).starts_with(root), "not in the directory set");
            for k in created(&bf) { let p = &env().nodes[k].path; check(p.starts_with(root) || parent(p), "created something elsewhere"); }
            drop(q.extensions.remove::<Entries>());
            check(created(&bf).iter().all(|k| parent(&env().nodes[*k].path)), "the temporary directory is left behind");
        }
    }
}
