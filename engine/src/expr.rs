//! Hash-consed bit-vector expressions (widths 1..=128) with simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    /// table lookup: args[0] = 8-bit variable node, payload = table index
    Table,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Vars {
    None,
    One(u32),
    Many(Rc<Vec<u32>>),
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<Vars>,
    map: HashMap<Node, E>,
    pub tables: Vec<Rc<Vec<u128>>>,
    table_map: HashMap<Rc<Vec<u128>>, u32>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    truth_cache: HashMap<E, Rc<[u64; 4]>>,
}

pub const T: E = 1;
pub const F: E = 0;

pub fn var_key(idx: u32, w: u8) -> u32 {
    // variables of different widths at the same input index are different variables
    let wc = match w { 1 => 0, 8 => 1, 16 => 2, 32 => 3, 64 => 4, _ => panic!("var width {}", w) };
    idx * 5 + wc
}
pub fn var_width(key: u32) -> u8 {
    [1u8, 8, 16, 32, 64][(key % 5) as usize]
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![], vars: vec![], map: HashMap::new(), tables: vec![], table_map: HashMap::new(),
            stamp: vec![], val: vec![], cur: 0, truth_cache: HashMap::new(),
        };
        a.konst(0, 1);
        a.konst(1, 1);
        a
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let vs = match n.op {
            Op::Const => Vars::None,
            Op::Var => Vars::One(n.k as u32),
            _ => {
                let mut v = Vars::None;
                let nargs = match n.op { Op::Extract | Op::ZExt | Op::SExt | Op::Table => 1, Op::Ite => 3, _ => 2 };
                let args = [n.a, n.b, n.c];
                for &x in &args[..nargs] {
                    v = union(v, &self.vars[x as usize]);
                }
                v
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    #[inline]
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u8) -> E {
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: var_key(idx, w) as u128 })
    }
    pub fn var_by_key(&mut self, key: u32) -> E {
        let w = var_width(key);
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: key as u128 })
    }
    #[inline]
    /// if `e` depends on nothing but one condition: that and the two values
    pub fn bit_of(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.nodes[e as usize];
        if n.w == 1 { return Some((e, 1, 0)); }
        match n.op {
            Op::ZExt if self.nodes[n.a as usize].w == 1 => Some((n.a, 1, 0)),
            Op::SExt if self.nodes[n.a as usize].w == 1 => Some((n.a, mask(n.w), 0)),
            Op::Ite => match (self.cv(n.b), self.cv(n.c)) { (Some(x), Some(y)) => Some((n.a, x, y)), _ => None },
            _ => None,
        }
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk2(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn table(&mut self, var: E, vals: Vec<u128>, w: u8) -> E {
        debug_assert!(self.n(var).op == Op::Var && self.w(var) == 8 && vals.len() == 256);
        if vals.iter().all(|v| *v == vals[0]) { return self.konst(vals[0], w); }
        let rc = Rc::new(vals);
        let idx = match self.table_map.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(rc.clone());
                self.table_map.insert(rc, i);
                i
            }
        };
        self.intern(Node { op: Op::Table, w, a: var, b: 0, c: 0, k: idx as u128 })
    }
    pub fn fold(op: Op, w: u8, wa: u8, a: u128, b: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => {
                let (x, y) = (sext(a, wa), sext(b, wa));
                if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m }
            }
            Op::SRem => {
                let (x, y) = (sext(a, wa), sext(b, wa));
                if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => {
                let s = sext(a, w);
                (if b >= w as u128 { if s < 0 { -1i128 } else { 0 } } else { s >> b }) as u128 & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
            Op::Sle => (sext(a, wa) <= sext(b, wa)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let w = match op { Eq | Ult | Ule | Slt | Sle => 1, _ => wa };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(Self::fold(op, w, wa, x, y), w);
        }
        // canonical: constant on the right for commutative ops
        let (a, b, ca, cb) = match op {
            Add | Mul | And | Or | Xor | Eq if ca.is_some() => (b, a, cb, ca),
            Add | Mul | And | Or | Xor | Eq if cb.is_none() && a > b => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let m = mask(wa);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let na = *self.n(a);
                    if na.op == Add { if let Some(x) = self.cv(na.b) { let k = self.konst(x.wrapping_add(y), wa); return self.bin(Add, na.a, k); } }
                }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, wa); }
                if let Some(y) = cb { let k = self.konst(0u128.wrapping_sub(y), wa); return self.bin(Add, a, k); }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, wa); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, wa); return self.bin(LShr, a, k); } }
            }
            URem => {
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.konst(y - 1, wa); return self.bin(And, a, k); } }
            }
            And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if wa == 1 {
                    if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return F; }
                }
                if let Some(k) = cb {
                    let na = *self.n(a);
                    match na.op {
                        And => if let Some(x) = self.cv(na.b) { let k = self.konst(x & k, wa); return self.bin(And, na.a, k); },
                        Concat => {
                            let wl = self.w(na.b);
                            let (hi, lo) = (na.a, na.b);
                            let kh = self.konst(k >> wl, wa - wl);
                            let kl = self.konst(k, wl);
                            let h = self.bin(And, hi, kh);
                            let l = self.bin(And, lo, kl);
                            return self.concat(h, l);
                        }
                        ZExt => {
                            let wi = self.w(na.a);
                            let ki = self.konst(k, wi);
                            let x = self.bin(And, na.a, ki);
                            return self.zext(x, wa);
                        }
                        _ => {
                            // low mask => zext(extract)
                            if (k + 1).is_power_of_two() && k != 0 {
                                let bits = (k + 1).trailing_zeros() as u8;
                                if bits < wa && bits % 8 == 0 {
                                    let x = self.extract(a, bits - 1, 0);
                                    return self.zext(x, wa);
                                }
                            }
                        }
                    }
                }
            }
            Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if wa == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) { return T; }
                if wa > 8 { if let Some(r) = self.bitwise_bytes(Or, a, b) { return r; } }
            }
            Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, wa); }
                if wa == 1 && cb == Some(1) {
                    // not
                    let na = *self.n(a);
                    match na.op {
                        Xor if self.cv(na.b) == Some(1) => return na.a,
                        Ult => return self.bin(Ule, na.b, na.a),
                        Ule => return self.bin(Ult, na.b, na.a),
                        Slt => return self.bin(Sle, na.b, na.a),
                        Sle => return self.bin(Slt, na.b, na.a),
                        _ => {}
                    }
                }
                if let Some(k) = cb {
                    let na = *self.n(a);
                    if na.op == Xor { if let Some(x) = self.cv(na.b) { let k = self.konst(x ^ k, wa); return self.bin(Xor, na.a, k); } }
                }
                if wa > 8 { if let Some(r) = self.bitwise_bytes(Xor, a, b) { return r; } }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(s) = cb {
                    if s >= wa as u128 { return self.konst(0, wa); }
                    let s = s as u8;
                    let x = self.extract(a, wa - 1 - s, 0);
                    let z = self.konst(0, s);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(s) = cb {
                    if s >= wa as u128 { return self.konst(0, wa); }
                    let x = self.extract(a, wa - 1, s as u8);
                    return self.zext(x, wa);
                }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if let Some(s) = cb {
                    let s = s.min(wa as u128 - 1);
                    let x = self.extract(a, wa - 1, s as u8);
                    return self.sext(x, wa);
                }
            }
            Eq => {
                if a == b { return T; }
                if wa == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(k) = cb {
                    let na = *self.n(a);
                    match na.op {
                        ZExt => {
                            let wi = self.w(na.a);
                            if k > mask(wi) { return F; }
                            let ki = self.konst(k, wi);
                            return self.bin(Eq, na.a, ki);
                        }
                        SExt => {
                            let wi = self.w(na.a);
                            if (sext(k & mask(wi), wi) as u128) & m != k { return F; }
                            let ki = self.konst(k, wi);
                            return self.bin(Eq, na.a, ki);
                        }
                        Concat => {
                            let wl = self.w(na.b);
                            let kh = self.konst(k >> wl, wa - wl);
                            let kl = self.konst(k, wl);
                            let l = self.bin(Eq, na.b, kl);
                            if l == F { return F; }
                            let h = self.bin(Eq, na.a, kh);
                            return self.bin(And, h, l);
                        }
                        Or if k == 0 => {
                            let z = self.konst(0, wa);
                            let x = self.bin(Eq, na.a, z);
                            let y = self.bin(Eq, na.b, z);
                            return self.bin(And, x, y);
                        }
                        Xor => {
                            if let Some(x) = self.cv(na.b) { let kk = self.konst(x ^ k, wa); return self.bin(Eq, na.a, kk); }
                            if k == 0 { return self.bin(Eq, na.a, na.b); }
                        }
                        Add => if let Some(x) = self.cv(na.b) { let kk = self.konst(k.wrapping_sub(x), wa); return self.bin(Eq, na.a, kk); },
                        Ite => {
                            let (x, y) = (self.cv(na.b), self.cv(na.c));
                            if x.is_some() || y.is_some() {
                                let kk = b;
                                let p = self.bin(Eq, na.b, kk);
                                let q = self.bin(Eq, na.c, kk);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (*self.n(a), *self.n(b));
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Eq, na.a, nb.a); }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let l = self.bin(Eq, na.b, nb.b);
                        let h = self.bin(Eq, na.a, nb.a);
                        return self.bin(And, h, l);
                    }
                    if (na.op == Concat || nb.op == Concat) && wa > 8 && wa % 8 == 0 {
                        let mut r = T;
                        for i in 0..wa / 8 {
                            let x = self.extract(a, i * 8 + 7, i * 8);
                            let y = self.extract(b, i * 8 + 7, i * 8);
                            let q = self.bin(Eq, x, y);
                            r = self.bin(And, r, q);
                        }
                        return r;
                    }
                }
            }
            Ult => {
                if a == b || cb == Some(0) { return F; }
                if cb == Some(1) { let z = self.konst(0, wa); return self.bin(Eq, a, z); }
                if ca == Some(m) { return F; }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) { return r; }
            }
            Ule => {
                if a == b || ca == Some(0) || cb == Some(m) { return T; }
                if cb == Some(0) { return self.bin(Eq, a, b); }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) { return r; }
            }
            Slt => {
                if a == b { return F; }
                if let Some(r) = self.scmp_zext(Ult, a, b, ca, cb) { return r; }
            }
            Sle => {
                if a == b { return T; }
                if let Some(r) = self.scmp_zext(Ule, a, b, ca, cb) { return r; }
            }
            _ => {}
        }
        self.mk2(op, w, a, b)
    }
    fn not_of(&self, a: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Op::Xor && n.w == 1 && self.cv(n.b) == Some(1) { Some(n.a) } else { None }
    }
    /// split a bitwise op over bytes when an operand is a concat/zext (keeps single-variable bytes separate)
    fn bitwise_bytes(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w % 8 != 0 { return None; }
        let structured = |s: &Self, e: E| matches!(s.n(e).op, Op::Concat | Op::ZExt | Op::Const);
        if !(structured(self, a) && structured(self, b)) { return None; }
        let mut r: Option<E> = None;
        for i in (0..w / 8).rev() {
            let x = self.extract(a, i * 8 + 7, i * 8);
            let y = self.extract(b, i * 8 + 7, i * 8);
            let q = self.bin(op, x, y);
            r = Some(match r { None => q, Some(h) => self.concat(h, q) });
        }
        r
    }
    fn cmp_zext(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        let (na, nb) = (*self.n(a), *self.n(b));
        // zext x < k
        if na.op == Op::ZExt {
            let wi = self.w(na.a);
            if let Some(k) = cb {
                if k > mask(wi) { return Some(T); }
                let kk = self.konst(k, wi);
                return Some(self.bin(op, na.a, kk));
            }
            if nb.op == Op::ZExt && self.w(nb.a) == wi { return Some(self.bin(op, na.a, nb.a)); }
        }
        if nb.op == Op::ZExt {
            let wi = self.w(nb.a);
            if let Some(k) = ca {
                if k > mask(wi) { return Some(F); }
                let kk = self.konst(k, wi);
                return Some(self.bin(op, kk, nb.a));
            }
        }
        None
    }
    fn scmp_zext(&mut self, uop: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        let w = self.w(a);
        let nonneg = |s: &Self, e: E, c: Option<u128>| s.n(e).op == Op::ZExt || c.map_or(false, |v| v >> (w - 1) == 0);
        if nonneg(self, a, ca) && nonneg(self, b, cb) {
            return Some(self.bin(uop, a, b));
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        self.bin(Op::Xor, a, T)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.konst((x << wl) | y, w);
        }
        if self.cv(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
            let (hh, hl) = ((nh.k >> 8) as u8, nh.k as u8);
            let (lh, ll) = ((nl.k >> 8) as u8, nl.k as u8);
            if hl == lh + 1 { return self.extract(nh.a, hh, ll); }
        }
        // normalise to right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let inner = self.concat(nh.b, lo);
            return self.concat(nh.a, inner);
        }
        self.mk2(Op::Concat, w, hi, lo)
    }
    pub fn extract(&mut self, a: E, hi: u8, lo: u8) -> E {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa { return a; }
        let na = *self.n(a);
        match na.op {
            Op::Const => return self.konst(na.k >> lo, w),
            Op::Extract => { let l0 = na.k as u8; return self.extract(na.a, hi + l0, lo + l0); }
            Op::Concat => {
                let wl = self.w(na.b);
                if lo >= wl { return self.extract(na.a, hi - wl, lo - wl); }
                if hi < wl { return self.extract(na.b, hi, lo); }
                let h = self.extract(na.a, hi - wl, 0);
                let l = self.extract(na.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(na.a);
                if lo >= wi { return self.konst(0, w); }
                if hi < wi { return self.extract(na.a, hi, lo); }
                let x = self.extract(na.a, wi - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(na.a);
                if hi < wi { return self.extract(na.a, hi, lo); }
                if lo < wi { let x = self.extract(na.a, wi - 1, lo); return self.sext(x, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, hi, lo);
                let y = self.extract(na.b, hi, lo);
                return self.bin(na.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, hi, 0);
                let y = self.extract(na.b, hi, 0);
                return self.bin(na.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(na.b, hi, lo);
                let y = self.extract(na.c, hi, lo);
                return self.ite(na.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: ((hi as u128) << 8) | lo as u128 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let na = *self.n(a);
        if na.w == w { return a; }
        match na.op {
            Op::Const => return self.konst(na.k, w),
            Op::ZExt => return self.zext(na.a, w),
            _ => {}
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let na = *self.n(a);
        if na.w == w { return a; }
        match na.op {
            Op::Const => { let v = sext(na.k, na.w) as u128; return self.konst(v, w); }
            Op::ZExt => return self.zext(na.a, w),
            Op::SExt => return self.sext(na.a, w),
            _ => {}
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == T { return a; }
        if c == F { return b; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            if a == T && b == F { return c; }
            if a == F && b == T { return self.not(c); }
            if a == T { return self.bin(Op::Or, c, b); }
            if b == F { return self.bin(Op::And, c, a); }
            if a == F { let n = self.not(c); return self.bin(Op::And, n, b); }
            if b == T { let n = self.not(c); return self.bin(Op::Or, n, a); }
        }
        if let Some(n) = self.not_of(c) { return self.ite(n, b, a); }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    /// Evaluate under an assignment.
    pub fn eval(&mut self, e: E, f: &dyn Fn(u32) -> u128) -> u128 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() { *s = 0; }
            self.cur = 1;
        }
        self.eval_rec(e, f)
    }
    fn eval_rec(&mut self, e: E, f: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return f(n.k as u32) & mask(n.w),
            _ => {}
        }
        if self.stamp[e as usize] == self.cur { return self.val[e as usize]; }
        let r = match n.op {
            Op::Extract => { let v = self.eval_rec(n.a, f); (v >> (n.k as u8)) & mask(n.w) }
            Op::ZExt => self.eval_rec(n.a, f),
            Op::SExt => { let wa = self.w(n.a); let v = self.eval_rec(n.a, f); (sext(v, wa) as u128) & mask(n.w) }
            Op::Concat => { let wl = self.w(n.b); let h = self.eval_rec(n.a, f); let l = self.eval_rec(n.b, f); (h << wl) | l }
            Op::Ite => { if self.eval_rec(n.a, f) != 0 { self.eval_rec(n.b, f) } else { self.eval_rec(n.c, f) } }
            Op::Table => { let v = self.eval_rec(n.a, f); self.tables[n.k as usize][v as usize & 255] }
            op => {
                let wa = self.w(n.a);
                let a = self.eval_rec(n.a, f);
                let b = self.eval_rec(n.b, f);
                Self::fold(op, n.w, wa, a, b)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.val[e as usize] = r;
        r
    }
    /// truth set of a width-1 expression over exactly one 8-bit variable
    pub fn truth(&mut self, e: E) -> Rc<[u64; 4]> {
        if let Some(r) = self.truth_cache.get(&e) { return r.clone(); }
        let mut t = [0u64; 4];
        for v in 0..256usize {
            if self.eval(e, &|_| v as u128) != 0 { t[v >> 6] |= 1 << (v & 63); }
        }
        let r = Rc::new(t);
        self.truth_cache.insert(e, r.clone());
        r
    }
    /// the single 8-bit variable this expression depends on, if so
    pub fn single8(&self, e: E) -> Option<u32> {
        match self.vars[e as usize] {
            Vars::One(k) if var_width(k) == 8 => Some(k),
            _ => None,
        }
    }
    pub fn var_list(&self, e: E) -> Vec<u32> {
        match &self.vars[e as usize] {
            Vars::None => vec![],
            Vars::One(k) => vec![*k],
            Vars::Many(v) => (**v).clone(),
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}:{}", n.k / 5, n.w),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), (n.k >> 8) as u8, n.k as u8),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::Table => format!("tab{}({})", n.k, self.show(n.a, depth - 1)),
            op => format!("{:?}({},{})", op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

fn union(a: Vars, b: &Vars) -> Vars {
    match (&a, b) {
        (_, Vars::None) => a,
        (Vars::None, _) => b.clone(),
        (Vars::One(x), Vars::One(y)) => {
            if x == y { a } else { let mut v = vec![*x, *y]; v.sort(); Vars::Many(Rc::new(v)) }
        }
        (Vars::Many(x), Vars::Many(y)) => {
            if Rc::ptr_eq(x, y) { return a; }
            let mut v: Vec<u32> = x.iter().chain(y.iter()).cloned().collect();
            v.sort(); v.dedup();
            if v.len() == x.len() { return a; }
            Vars::Many(Rc::new(v))
        }
        (Vars::Many(x), Vars::One(y)) | (Vars::One(y), Vars::Many(x)) => {
            if x.binary_search(y).is_ok() { return Vars::Many(x.clone()); }
            let mut v = (**x).clone();
            v.push(*y); v.sort();
            Vars::Many(Rc::new(v))
        }
    }
}
