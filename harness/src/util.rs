//! Transports, bodies and small helpers shared by the harnesses.
use crate::prim::*;
use std::io::{self, Read};

/// How a transport splits the data into reads.
pub struct Src {
    pub d: Vec<u8>,
    pub p: usize,
    /// sizes of the first reads (0 = as much as fits)
    pub first: Vec<usize>,
    pub nth: usize,
    /// after `first`: true = every split chosen symbolically, false = as much as fits
    pub sym: bool,
    /// maximal size of a symbolic read
    pub maxc: usize,
    /// how many symbolic splits before falling back to whole reads
    pub nsym: usize,
    /// fixed maximal read size after `first` (0 = none)
    pub piece: usize,
    pub eintr: usize,
    pub err: usize,
    pub err_sticky: bool,
    pub faults: usize,
    pub fault_after: usize,
    /// hard errors returned
    pub err_fired: usize,
    /// how many kinds of hard error to choose from
    pub kinds: usize,
    pub shared: Option<std::rc::Rc<std::cell::RefCell<usize>>>,
}
impl Src {
    pub fn new(d: Vec<u8>) -> Src { Src { d, p: 0, first: Vec::new(), nth: 0, sym: false, maxc: 255, nsym: usize::MAX, piece: 0, eintr: 0, err: 0, err_sticky: false, faults: 0, fault_after: 0, err_fired: 0, kinds: 5, shared: None } }
    pub fn sym(mut self, maxc: usize) -> Src { self.sym = true; self.maxc = maxc; self }
    pub fn first(mut self, v: &[usize]) -> Src { self.first = v.to_vec(); self }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let avail = self.d.len() - self.p;
        let m = if avail < b.len() { avail } else { b.len() };
        let mut n = m;
        if self.nth < self.first.len() {
            let w = self.first[self.nth];
            self.nth += 1;
            if w > 0 && w < n { n = w; }
        } else {
            if self.p >= self.fault_after && (self.eintr > 0 || self.err > 0) {
                let i = (self.eintr > 0) as usize;
                let h = (self.err > 0) as usize;
                let c = choose(1 + i + h);
                if c > 0 {
                    self.faults += 1;
                    if i == 1 && c == 1 { self.eintr -= 1; return Err(io::ErrorKind::Interrupted.into()); }
                    self.err_fired += 1;
                    if let Some(x) = self.shared.as_ref() { *x.borrow_mut() += 1; }
                    if !self.err_sticky { self.err -= 1; }
                    return Err(if self.err_fired == 1 { any_kind(self.kinds) } else { io::ErrorKind::TimedOut }.into());
                }
            }
            if self.piece > 0 && n > self.piece { n = self.piece; }
            if self.sym && self.nsym > 0 && m > 1 {
                self.nsym -= 1;
                let c = if m < self.maxc { m } else { self.maxc };
                n = if c == 0 { 0 } else { 1 + choose(c) };
            }
        }
        b[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
/// some kind of hard error
pub fn any_kind(n: usize) -> io::ErrorKind { [io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset, io::ErrorKind::InvalidData][choose(n)] }
pub fn sym_bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(u8s()); i += 1; } v }

/// true if `needle` occurs in `hay` (one expression, no branching)
#[inline(never)]
pub fn occurs(hay: &[u8], needle: &[u8]) -> bool {
    let mut any = 0u8;
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        let mut d = 0u8;
        let mut j = 0;
        while j < needle.len() { d |= hay[i + j] ^ needle[j]; j += 1; }
        any |= (d == 0) as u8;
        i += 1;
    }
    any != 0
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { let mut v = Vec::with_capacity(256); for p in parts { v.extend_from_slice(p); } v }
