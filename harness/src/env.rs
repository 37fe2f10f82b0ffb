//! Environment model: an in-memory file system with injectable faults, clock, random words.
//! These definitions take the place of libc's in both the symbolic execution and the native replay.
use libc::{c_char, c_int, c_uint, c_void, dirent64, mode_t, off64_t, size_t, ssize_t, timespec};
use crate::prim::*;
type St = libc::stat64;

pub struct Node { pub path: Vec<u8>, pub dir: bool, pub data: Vec<u8>, pub alive: bool, pub link: Option<Vec<u8>> }
pub struct Fd { pub node: usize, pub pos: usize, pub flags: c_int, pub open: bool, pub next: usize, pub same: usize }
/// Faults: each budget bounds the number of times the fault may happen on a path; where it happens is symbolic.
#[derive(Clone, Copy, Default)]
pub struct Faults {
    pub short_write: usize, pub eintr_write: usize, pub err_write: usize,
    pub short_read: usize, pub eintr_read: usize, pub err_read: usize,
    pub err_open: usize, pub err_mkdir: usize, pub short_stdout: usize,
}
pub struct Env {
    pub nodes: Vec<Node>,
    pub fds: Vec<Fd>,
    pub f: Faults,
    pub stdout: Vec<u8>,
    /// fault fired (errno of the last hard fault)
    pub fired_write: usize, pub fired_open: usize, pub fired_mkdir: usize, pub fired_read: usize, pub eintrs: usize, pub shorts: usize,
    pub creates: usize, pub writes: usize, pub trunc_existing: usize, pub opens: usize,
    pub rng_sym: usize, pub rng_rej: usize, pub rng_state: u32, pub rng_n: usize, pub rng_plain: bool, pub rng_max: usize, pub active: bool, pub capture_stdout: bool, pub mkdirs: usize,
}
static mut ENV: Option<Env> = None;
const CWD: &[u8] = b"/w";

pub fn env() -> &'static mut Env {
    unsafe {
        if ENV.is_none() {
            ENV = Some(Env { nodes: Vec::new(), fds: Vec::new(), f: Faults::default(), stdout: Vec::new(), fired_write: 0, fired_open: 0, fired_mkdir: 0, fired_read: 0, eintrs: 0, shorts: 0,
                creates: 0, writes: 0, trunc_existing: 0, opens: 0, rng_sym: 0, rng_rej: 0, rng_state: 0x1234_5678, rng_n: 0, rng_plain: false, rng_max: 0, active: false, capture_stdout: false, mkdirs: 0 });
            let e = ENV.as_mut().unwrap();
            e.add_dir(b"/");
            e.add_dir(b"/tmp");
            e.add_dir(b"/w");
        }
        ENV.as_mut().unwrap()
    }
}
impl Env {
    pub fn add_dir(&mut self, p: &[u8]) -> usize { self.nodes.push(Node { path: p.to_vec(), dir: true, data: Vec::new(), alive: true, link: None }); self.nodes.len() - 1 }
    pub fn add_file(&mut self, p: &[u8], d: &[u8]) -> usize { self.nodes.push(Node { path: p.to_vec(), dir: false, data: d.to_vec(), alive: true, link: None }); self.nodes.len() - 1 }
    pub fn add_link(&mut self, p: &[u8], target: &[u8]) -> usize { let i = self.add_file(p, b""); self.nodes[i].link = Some(target.to_vec()); i }
    pub fn find(&self, p: &[u8]) -> Option<usize> {
        let full;
        let p = if p.first() == Some(&b'/') { p } else { full = norm(CWD, p); &full[..] };
        let mut i = 0;
        while i < self.nodes.len() { if self.nodes[i].alive && self.nodes[i].path == p { return Some(i); } i += 1; }
        None
    }
    pub fn live(&self) -> usize { let mut n = 0; for x in self.nodes.iter() { if x.alive { n += 1; } } n }
    pub fn open_fds(&self) -> usize { let mut n = 0; for x in self.fds.iter() { if x.open { n += 1; } } n }
}
pub fn set_active() { env().active = true; }

fn err(e: c_int) -> c_int { unsafe { *libc::__errno_location() = e; } -1 }
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 { n += 1; }
    std::slice::from_raw_parts(p as *const u8, n)
}
fn norm(base: &[u8], p: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(base.len() + p.len() + 2);
    let full: Vec<u8> = if p.first() == Some(&b'/') { p.to_vec() } else { let mut x = base.to_vec(); x.push(b'/'); x.extend_from_slice(p); x };
    let mut i = 0;
    while i < full.len() {
        while i < full.len() && full[i] == b'/' { i += 1; }
        let s = i;
        while i < full.len() && full[i] != b'/' { i += 1; }
        let c = &full[s..i];
        if c.is_empty() || c == b"." { continue; }
        if c == b".." { while let Some(x) = v.pop() { if x == b'/' { break; } } continue; }
        v.push(b'/');
        v.extend_from_slice(c);
    }
    if v.is_empty() { v.push(b'/'); }
    v
}
/// the path with every symbolic link on it resolved, the last component only if asked for
fn resolve(p: Vec<u8>, last: bool) -> Result<Vec<u8>, c_int> {
    let e = env();
    let mut any = false;
    for n in e.nodes.iter() { if n.link.is_some() { any = true; } }
    if !any { return Ok(p); }
    let mut p = p;
    let mut hops = 0;
    'again: loop {
        let mut i = 1;
        while i <= p.len() {
            if i == p.len() || p[i] == b'/' {
                if i < p.len() || last {
                    if let Some(n) = e.find(&p[..i]) {
                        if let Some(t) = e.nodes[n].link.as_ref() {
                            hops += 1;
                            if hops > 8 { return Err(libc::ELOOP); }
                            let mut x = norm(parent(&p[..i]), t);
                            x.extend_from_slice(&p[i..]);
                            p = norm(CWD, &x);
                            continue 'again;
                        }
                    }
                }
            }
            i += 1;
        }
        return Ok(p);
    }
}
fn parent(p: &[u8]) -> &[u8] {
    let mut i = p.len() - 1;
    while p[i] != b'/' { i -= 1; }
    if i == 0 { &p[..1] } else { &p[..i] }
}
fn base_of(fd: c_int) -> Vec<u8> {
    if fd == libc::AT_FDCWD { return CWD.to_vec(); }
    let e = env();
    e.nodes[e.fds[(fd - 1000) as usize].node].path.clone()
}
fn slot(fd: c_int) -> usize { env().fds[(fd - 1000) as usize].same }
fn is_model(fd: c_int) -> bool { fd >= 1000 && ((fd - 1000) as usize) < env().fds.len() && env().fds[(fd - 1000) as usize].open }

fn do_open(path: Vec<u8>, flags: c_int) -> c_int {
    let e = env();
    e.opens += 1;
    // not the directories which removing one opens
    if e.f.err_open > 0 && flags & libc::O_DIRECTORY == 0 && choose(2) == 1 { e.f.err_open -= 1; e.fired_open += 1; return err([libc::EACCES, libc::EMFILE, libc::ENOENT][choose(3)]); }
    let excl = flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0;
    let path = match resolve(path, !excl && flags & libc::O_NOFOLLOW == 0) { Ok(p) => p, Err(x) => return err(x) };
    let existing = e.find(&path);
    if let Some(n) = existing { if !excl && e.nodes[n].link.is_some() { return err(libc::ELOOP); } }
    let node = match existing {
        Some(n) => {
            if excl { return err(libc::EEXIST); }
            if flags & libc::O_DIRECTORY != 0 && !e.nodes[n].dir { return err(libc::ENOTDIR); }
            if e.nodes[n].dir && flags & libc::O_ACCMODE != libc::O_RDONLY { return err(libc::EISDIR); }
            if flags & libc::O_TRUNC != 0 && !e.nodes[n].dir { e.trunc_existing += 1; e.nodes[n].data.clear(); }
            n
        }
        None => {
            if flags & libc::O_CREAT == 0 { return err(libc::ENOENT); }
            match e.find(parent(&path)) { Some(p) if e.nodes[p].dir => {} _ => return err(libc::ENOENT) }
            e.creates += 1;
            e.add_file(&path, b"")
        }
    };
    let same = e.fds.len();
    e.fds.push(Fd { node, pos: 0, flags, open: true, next: 0, same });
    1000 + e.fds.len() as c_int - 1
}

#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: c_uint) -> c_int { do_open(norm(CWD, cstr(p)), flags) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, _mode: c_uint) -> c_int { do_open(norm(&base_of(d), cstr(p)), flags) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { if is_model(fd) { env().fds[(fd - 1000) as usize].open = false; } 0 }

/// number of bytes an operation moves, or an error
fn plan(n: usize, short: &mut usize, eintr: &mut usize, hard: &mut usize, errnos: &[c_int]) -> Result<usize, c_int> {
    if n == 0 { return Ok(0); }
    // every shorter count, or for large ones some
    let s = if *short > 0 && n > 1 { if n <= 48 { n - 1 } else { 5 } } else { 0 };
    let i = (*eintr > 0) as usize;
    let h = (*hard > 0) as usize;
    let total = 1 + i + h + s;
    let c = choose(total);
    if c == 0 { return Ok(n); }
    if i == 1 && c == 1 { *eintr -= 1; return Err(libc::EINTR); }
    if h == 1 && c == 1 + i { *hard -= 1; return Err(errnos[choose(errnos.len())]); }
    *short -= 1;
    let k = c - i - h;
    Ok(if n <= 48 { k } else { [1, 7, n / 2, n - 2, n - 1][k - 1] })
}

#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    let e = env();
    if fd == 1 && e.capture_stdout {
        let mut a = e.f.short_stdout; let (mut z, mut y) = (0, 0);
        let k = match plan(n, &mut a, &mut z, &mut y, &[0]) { Ok(k) => k, Err(x) => return err(x) as ssize_t };
        e.f.short_stdout = a;
        e.stdout.extend_from_slice(std::slice::from_raw_parts(p as *const u8, k));
        return k as ssize_t;
    }
    if fd < 1000 { return sx_raw_write(fd, p, n); }
    if !is_model(fd) { return err(libc::EBADF) as ssize_t; }
    let mut f = e.f;
    let r = plan(n, &mut f.short_write, &mut f.eintr_write, &mut f.err_write, &[libc::ENOSPC, libc::EAGAIN, libc::EIO]);
    e.f = f;
    e.writes += 1;
    let k = match r {
        Ok(k) => { if k < n { e.shorts += 1; } k }
        Err(x) => { if x == libc::EINTR { e.eintrs += 1; } else { e.fired_write += 1; } return err(x) as ssize_t; }
    };
    let i = slot(fd);
    let nd = e.fds[i].node;
    if e.fds[i].flags & libc::O_ACCMODE == libc::O_RDONLY { return err(libc::EBADF) as ssize_t; }
    if e.fds[i].flags & libc::O_APPEND != 0 { e.fds[i].pos = e.nodes[nd].data.len(); }
    let pos = e.fds[i].pos;
    let d = &mut e.nodes[nd].data;
    let s = std::slice::from_raw_parts(p as *const u8, k);
    if d.len() < pos { d.resize(pos, 0); }
    let over = std::cmp::min(k, d.len() - pos);
    d[pos..pos + over].copy_from_slice(&s[..over]);
    d.extend_from_slice(&s[over..]);
    e.fds[i].pos = pos + k;
    k as ssize_t
}
unsafe fn sx_raw_write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    #[cfg(feature = "native")] { native::raw(1, fd as i64, p as i64, n as i64) as ssize_t }
    #[cfg(not(feature = "native"))] { let _ = (fd, p); n as ssize_t }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if fd < 1000 { return 0; }
    if !is_model(fd) { return err(libc::EBADF) as ssize_t; }
    let e = env();
    let i = slot(fd);
    let nd = e.fds[i].node;
    if e.nodes[nd].dir { return err(libc::EISDIR) as ssize_t; }
    let avail = e.nodes[nd].data.len().saturating_sub(e.fds[i].pos);
    let want = std::cmp::min(n, avail);
    let mut f = e.f;
    let r = plan(if want == 0 && (f.eintr_read > 0 || f.err_read > 0) && n > 0 { 1 } else { want }, &mut f.short_read, &mut f.eintr_read, &mut f.err_read, &[libc::EIO, libc::EAGAIN]);
    e.f = f;
    let k = match r {
        Ok(k) => std::cmp::min(k, want),
        Err(x) => { if x == libc::EINTR { e.eintrs += 1; } else { e.fired_read += 1; } return err(x) as ssize_t; }
    };
    let pos = e.fds[i].pos;
    std::ptr::copy_nonoverlapping(e.nodes[nd].data.as_ptr().add(pos), p as *mut u8, k);
    e.fds[i].pos += k;
    k as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if is_model(fd) {
        // a duplicate shares the position of the descriptor it was made from
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            let e = env();
            let o = &e.fds[slot(fd)];
            let d = Fd { node: o.node, pos: 0, flags: o.flags, open: true, next: 0, same: slot(fd) };
            e.fds.push(d);
            return 1000 + e.fds.len() as c_int - 1;
        }
        return 0;
    }
    #[cfg(feature = "native")] { return native::raw(72, fd as i64, cmd as i64, arg) as c_int; }
    #[cfg(not(feature = "native"))] { let _ = (cmd, arg); err(libc::EBADF) }
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !is_model(fd) { return err(libc::EBADF) as off64_t; }
    let e = env();
    let i = slot(fd);
    let b = match wh { libc::SEEK_SET => 0, libc::SEEK_CUR => e.fds[i].pos as i64, _ => e.nodes[e.fds[i].node].data.len() as i64 };
    if b + off < 0 { return err(libc::EINVAL) as off64_t; }
    e.fds[i].pos = (b + off) as usize;
    b + off
}
unsafe fn fill_stat(n: usize, st: *mut St) -> c_int {
    let e = env();
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<St>());
    (*st).st_mode = if e.nodes[n].link.is_some() { libc::S_IFLNK | 0o777 } else if e.nodes[n].dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = match e.nodes[n].link.as_ref() { Some(t) => t.len(), None => e.nodes[n].data.len() } as i64;
    (*st).st_ino = n as u64 + 1;
    (*st).st_dev = 7;
    (*st).st_nlink = 1;
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut St) -> c_int { if !is_model(fd) { return err(libc::EBADF); } fill_stat(env().fds[(fd - 1000) as usize].node, st) }
unsafe fn stat_path(p: Vec<u8>, st: *mut St, follow: bool) -> c_int {
    let p = match resolve(p, follow) { Ok(p) => p, Err(x) => return err(x) };
    match env().find(&p) { Some(n) => fill_stat(n, st), None => err(libc::ENOENT) }
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut St) -> c_int { stat_path(norm(CWD, cstr(p)), st, true) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut St) -> c_int { stat_path(norm(CWD, cstr(p)), st, false) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut St, f: c_int) -> c_int {
    let s = cstr(p);
    if s.is_empty() { return fstat64(d, st); }
    stat_path(norm(&base_of(d), s), st, f & libc::AT_SYMLINK_NOFOLLOW == 0)
}
#[no_mangle] pub unsafe extern "C" fn statx(_d: c_int, _p: *const c_char, _f: c_int, _m: c_uint, _b: *mut c_void) -> c_int { err(libc::ENOSYS) }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, _m: mode_t) -> c_int {
    let e = env();
    let path = norm(CWD, cstr(p));
    if e.find(&path).is_some() { return err(libc::EEXIST); }
    if e.f.err_mkdir > 0 && choose(2) == 1 { e.f.err_mkdir -= 1; e.fired_mkdir += 1; return err(libc::EACCES); }
    match e.find(parent(&path)) { Some(n) if e.nodes[n].dir => {} _ => return err(libc::ENOENT) }
    e.mkdirs += 1;
    e.add_dir(&path);
    0
}
fn has_children(p: &[u8]) -> bool {
    let e = env();
    for n in e.nodes.iter() { if n.alive && n.path.len() > p.len() && n.path.starts_with(p) && n.path[p.len()] == b'/' { return true; } }
    false
}
fn remove(path: Vec<u8>, dir: bool) -> c_int {
    let e = env();
    match e.find(&path) {
        None => err(libc::ENOENT),
        Some(n) => {
            if dir { if !e.nodes[n].dir { return err(libc::ENOTDIR); } if has_children(&path) { return err(libc::ENOTEMPTY); } }
            else if e.nodes[n].dir { return err(libc::EISDIR); }
            e.nodes[n].alive = false;
            0
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { remove(norm(CWD, cstr(p)), true) }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { remove(norm(CWD, cstr(p)), false) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int { remove(norm(&base_of(d), cstr(p)), f & libc::AT_REMOVEDIR != 0) }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (a, b) = (norm(CWD, cstr(a)), norm(CWD, cstr(b)));
    let e = env();
    let n = match e.find(&a) { Some(n) => n, None => return err(libc::ENOENT) };
    match e.find(parent(&b)) { Some(p) if e.nodes[p].dir => {} _ => return err(libc::ENOENT) }
    if a == b { return 0; }
    if let Some(o) = e.find(&b) {
        if e.nodes[o].dir != e.nodes[n].dir { return err(if e.nodes[o].dir { libc::EISDIR } else { libc::ENOTDIR }); }
        if e.nodes[o].dir && has_children(&b) { return err(libc::ENOTEMPTY); }
        if !e.nodes[o].dir { e.trunc_existing += 1; }
        e.nodes[o].alive = false;
    }
    let k = e.nodes.len();
    let mut i = 0;
    while i < k {
        if e.nodes[i].alive && e.nodes[i].path.len() > a.len() && e.nodes[i].path.starts_with(&a) && e.nodes[i].path[a.len()] == b'/' {
            let mut x = b.clone();
            x.extend_from_slice(&e.nodes[i].path[a.len()..]);
            e.nodes[i].path = x;
        }
        i += 1;
    }
    e.nodes[n].path = b;
    0
}
#[no_mangle] pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    let e = env();
    let path = norm(CWD, cstr(p));
    if e.find(&path).is_some() { return err(libc::EEXIST); }
    match e.find(parent(&path)) { Some(n) if e.nodes[n].dir => {} _ => return err(libc::ENOENT) }
    e.creates += 1;
    e.add_link(&path, cstr(t));
    0
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    let e = env();
    match e.find(&norm(CWD, cstr(p))) {
        None => err(libc::ENOENT) as ssize_t,
        Some(i) => match e.nodes[i].link.as_ref() {
            None => err(libc::EINVAL) as ssize_t,
            Some(t) => { let k = std::cmp::min(n, t.len()); std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k); k as ssize_t }
        }
    }
}
/// no hard links on this file system
#[no_mangle] pub unsafe extern "C" fn link(_a: *const c_char, _b: *const c_char) -> c_int { err(libc::EPERM) }
#[no_mangle] pub unsafe extern "C" fn linkat(_a: c_int, _b: *const c_char, _c: c_int, _d: *const c_char, _f: c_int) -> c_int { err(libc::EPERM) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, _m: c_int) -> c_int { match resolve(norm(CWD, cstr(p)), true) { Ok(x) => if env().find(&x).is_some() { 0 } else { err(libc::ENOENT) }, Err(x) => err(x) } }
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, _m: mode_t) -> c_int { access(p, 0) }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, _m: mode_t) -> c_int { if is_model(fd) { 0 } else { err(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if is_model(fd) { 0 } else { err(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { if is_model(fd) { 0 } else { err(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, _o: c_int) -> c_int { if is_model(fd) { 0 } else { err(libc::EBADF) } }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !is_model(fd) { return err(libc::EBADF); }
    if n < 0 { return err(libc::EINVAL); }
    let e = env();
    let f = &e.fds[(fd - 1000) as usize];
    if f.flags & libc::O_ACCMODE == libc::O_RDONLY { return err(libc::EINVAL); }
    // a size nobody has room for
    if n > 1 << 20 { return err(libc::EFBIG); }
    e.nodes[f.node].data.resize(n as usize, 0);
    0
}
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(fd: c_int, _o: off64_t, _n: off64_t) -> c_int { if is_model(fd) { 0 } else { libc::EBADF } }
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let mut i = 0;
    while i < n as usize { let x = &*v.add(i); if x.iov_len > 0 { return write(fd, x.iov_base, x.iov_len); } i += 1; }
    0
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let mut i = 0;
    while i < n as usize { let x = &*v.add(i); if x.iov_len > 0 { return read(fd, x.iov_base, x.iov_len); } i += 1; }
    0
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    if !is_model(fd) { return err(libc::EBADF) as ssize_t; }
    let i = slot(fd);
    let old = env().fds[i].pos;
    env().fds[i].pos = o as usize;
    let r = read(fd, p, n);
    env().fds[i].pos = old;
    r
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if !is_model(fd) { return err(libc::EBADF) as ssize_t; }
    let i = slot(fd);
    let old = env().fds[i].pos;
    env().fds[i].pos = o as usize;
    let r = write(fd, p, n);
    env().fds[i].pos = old;
    r
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
    let r = match resolve(norm(CWD, cstr(p)), true) { Ok(x) => x, Err(x) => { err(x); return std::ptr::null_mut(); } };
    if env().find(&r).is_none() { err(libc::ENOENT); return std::ptr::null_mut(); }
    let o = if b.is_null() { malloc(r.len() + 1) as *mut c_char } else { b };
    std::ptr::copy_nonoverlapping(r.as_ptr(), o as *mut u8, r.len());
    *o.add(r.len()) = 0;
    o
}
#[cfg(feature = "native")] use libc::malloc;
#[cfg(not(feature = "native"))] unsafe fn malloc(n: size_t) -> *mut c_void { let mut v: Vec<u8> = Vec::with_capacity(n); let p = v.as_mut_ptr(); std::mem::forget(v); p as *mut c_void }
/// freed with the path
#[cfg(not(feature = "native"))] #[no_mangle] pub unsafe extern "C" fn free(_p: *mut c_void) {}

#[repr(C)] pub struct Dir { fd: c_int, ent: dirent64 }
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !is_model(fd) { err(libc::EBADF); return std::ptr::null_mut(); }
    Box::into_raw(Box::new(Dir { fd, ent: std::mem::zeroed() })) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let fd = do_open(norm(CWD, cstr(p)), libc::O_DIRECTORY);
    if fd < 0 { return std::ptr::null_mut(); }
    fdopendir(fd)
}
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int { (*(d as *mut Dir)).fd }
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int { let b = Box::from_raw(d as *mut Dir); close(b.fd) }
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut dirent64 {
    let d = &mut *(d as *mut Dir);
    let e = env();
    let i = (d.fd - 1000) as usize;
    let base = e.nodes[e.fds[i].node].path.clone();
    while e.fds[i].next < e.nodes.len() {
        let k = e.fds[i].next;
        e.fds[i].next += 1;
        let n = &e.nodes[k];
        if !n.alive || n.path.len() <= base.len() + 1 || parent(&n.path) != &base[..] { continue; }
        let s = base.len() + (base.len() > 1) as usize;
        let name = &n.path[s..];
        d.ent.d_ino = k as u64 + 1;
        d.ent.d_type = if n.link.is_some() { libc::DT_LNK } else if n.dir { libc::DT_DIR } else { libc::DT_REG };
        let mut j = 0;
        while j < name.len() { d.ent.d_name[j] = name[j] as c_char; j += 1; }
        d.ent.d_name[j] = 0;
        return &mut d.ent;
    }
    std::ptr::null_mut()
}
#[no_mangle] pub unsafe extern "C" fn strlen(p: *const c_char) -> size_t { cstr(p).len() }
#[no_mangle] pub unsafe extern "C" fn getenv(_n: *const c_char) -> *const c_char { std::ptr::null() }
#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if n < 3 { err(libc::ERANGE); return std::ptr::null_mut(); }
    *b = b'/' as c_char; *b.add(1) = b'w' as c_char; *b.add(2) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: c_int, t: *mut timespec) -> c_int { (*t).tv_sec = 1000; (*t).tv_nsec = 5; 0 }
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
    let p = b as *mut u8;
    let mut i = 0;
    while i < n { *p.add(i) = 0x5a ^ i as u8; i += 1; }
    n as ssize_t
}
#[cfg(not(feature = "native"))]
#[no_mangle] pub unsafe extern "C" fn syscall(n: libc::c_long, b: *mut c_void, l: size_t, f: c_uint) -> libc::c_long {
    if n == libc::SYS_getrandom { return getrandom(b, l, f) as libc::c_long; }
    err(libc::ENOSYS) as libc::c_long
}
#[no_mangle] pub unsafe extern "C" fn getpid() -> c_int { 77 }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t { err(libc::ENOSYS) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut off64_t, _n: size_t) -> ssize_t { err(libc::ENOSYS) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn splice(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t { err(libc::ENOSYS) as ssize_t }
#[no_mangle] pub extern "C" fn pthread_atfork(_a: *const c_void, _b: *const c_void, _c: *const c_void) -> c_int { 0 }
#[no_mangle] pub extern "C" fn sx_env_rng_block() -> u32 { let e = env(); if e.rng_sym > 0 { e.rng_sym as u32 } else { 24 } }
#[no_mangle] pub extern "C" fn sx_env_rng_word() -> u32 {
    let e = env();
    e.rng_n += 1;
    if e.rng_sym > 0 {
        // any word, up to a number of words
        if e.rng_plain { if e.rng_n > e.rng_max { return 0x2000_0001u32.wrapping_mul(e.rng_n as u32); } return u32s(); }
        let w = u32s();
        // rand's alphanumeric sampling rejects two values in 64: bound how often
        let rej = if e.rng_rej > 0 { choose(2) } else { 0 };
        e.rng_rej -= rej;
        assume(((w >> 26) >= 62) as usize == rej);
        return w;
    }
    e.rng_state = e.rng_state.wrapping_mul(1664525).wrapping_add(1013904223);
    e.rng_state
}

#[cfg(feature = "native")]
pub mod native {
    use super::*;
    use libc::c_long;
    #[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
        if n == libc::SYS_getrandom { return super::getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long; }
        let r: c_long;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
        if r < 0 && r > -4096 { err(-r as c_int); -1 } else { r }
    }
    pub unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long) -> c_long {
        let r: c_long;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
        if r < 0 { err(-r as c_int); -1 } else { r }
    }
}
