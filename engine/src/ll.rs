//! Textual LLVM IR: lazy loader and compiler to a register form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u8),
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Other,
}
impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(b) => {
                let bytes = ((*b as u64) + 7) / 8;
                let p = bytes.next_power_of_two().min(16);
                (((bytes + p - 1) / p) * p, p)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(b) => (*b as u64 / 8, *b as u64 / 8),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in f {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
            Ty::Array(n, t) => { let (s, a) = t.size_align(); (s * n, a) }
        }
    }
    pub fn size(&self) -> u64 { self.size_align().0 }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(b) => *b as u8,
            Ty::Ptr => 64,
            Ty::Float(b) => *b,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (j, t) in f.iter().enumerate() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if i == j { return off; }
                    off += s;
                }
                panic!("field_off")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) => *n as usize, _ => 0 }
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Agg(Vec<Cv>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    W(u128),
    A(Box<(Ty, Cv)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Same }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, Opd)>, pub block: u32 }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Dyn(Opd) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u8, u32, Opd, Opd),
    Icmp(Pred, u8, u32, Opd, Opd),
    Select(u32, Opd, Opd, Opd, u8),
    Cast(CastK, u8, u8, u32, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u64, u8)>),
    Alloca(u32, Opd, u64),
    Call(Option<u32>, Callee, Vec<(Opd, u8)>, u8),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(u8, Opd, Vec<(u128, Edge)>, Edge),
    Ret(Option<Opd>),
    Unreachable,
    Extract(u32, Opd, Vec<u32>, Ty),
    Insert(u32, Opd, Opd, Vec<u32>, Ty),
    AtomicRmw(Rmw, u8, u32, Opd, Opd),
    CmpXchg(u8, u32, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<I>,
}

pub struct FnInfo {
    pub name: String,
    pub def: Option<(usize, usize)>,
    pub weak: bool,
    pub compiled: Option<&'static Func>,
}

pub struct GlobalInfo {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Vec<u8>>,
    pub constant: bool,
}

pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnInfo>, // object id of function i is i+1
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub global_addr: HashMap<String, u64>,
    pub first_dyn: u32,
    pub redirects: HashMap<String, String>,
}

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub m: &'a Module }

impl<'a> P<'a> {
    pub fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let end = (self.i + 120).min(self.s.len());
            let st = self.i.saturating_sub(80);
            panic!("expected {:?} at ...{}<<HERE>>{}", t, String::from_utf8_lossy(&self.s[st..self.i]), String::from_utf8_lossy(&self.s[self.i..end]));
        }
    }
    /// bare word [a-zA-Z0-9_.-]
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$')) { j += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..j]) }
    }
    pub fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    pub fn eatw(&mut self, t: &str) -> bool { if self.peek_word() == t { self.i += t.len(); true } else { false } }
    pub fn skip_parens(&mut self) {
        self.expect("(");
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    /// name after % or @
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let mut j = self.i;
            while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$')) { j += 1; }
            let r = String::from_utf8_lossy(&self.s[self.i..j]).into_owned();
            self.i = j;
            r
        }
    }
    pub fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => false,
            b'i' => { let w = self.peek_word(); w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) }
            b'p' => self.peek_word() == "ptr",
            b'v' => self.peek_word() == "void",
            b'f' => matches!(self.peek_word(), "float" | "fp128"),
            b'd' => self.peek_word() == "double",
            b'h' => self.peek_word() == "half",
            b'm' => self.peek_word() == "metadata",
            b'l' => self.peek_word() == "label",
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.expect("{");
                let mut f = vec![];
                if !self.eat("}") {
                    loop { f.push(self.ty()); if !self.eat(",") { break; } }
                    self.expect("}");
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                self.expect("<");
                if self.eat("{") {
                    let mut f = vec![];
                    if !self.eat("}") {
                        loop { f.push(self.ty()); if !self.eat(",") { break; } }
                        self.expect("}");
                    }
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Array(n, Box::new(t))
                }
            }
            b'[' => {
                self.expect("[");
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Array(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.skip_parens(); } Ty::Ptr }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "metadata" | "label" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?}", w))),
                    _ => panic!("type {:?}", w),
                }
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue; }
            if c == b'"' { // string attribute
                self.name();
                if self.eat("=") { self.ws(); self.name(); }
                continue;
            }
            if !c.is_ascii_alphabetic() { return; }
            if self.is_type_start() { return; }
            let w = self.peek_word();
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "sub" | "add" | "trunc" | "c" | "x" | "asm" | "splat" | "xor" | "dso_local_equivalent" | "no_cfi" | "none" => return,
                _ => {}
            }
            self.i += w.len();
            if w == "align" { if self.peek() == b'(' { self.skip_parens(); } else { self.word(); } continue; }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens(); }
        }
    }
    fn int_lit(&mut self) -> u128 {
        let w = self.word();
        match w {
            "true" => 1,
            "false" => 0,
            _ => {
                if let Some(n) = w.strip_prefix('-') { (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 }
                else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() }
                else if let Some(h) = w.strip_prefix("0x") { u128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap() }
                else if w.contains('.') || w.contains('e') { w.parse::<f64>().map(|f| f.to_bits() as u128).unwrap_or_else(|_| panic!("lit {:?}", w)) }
                else { w.parse::<u128>().unwrap_or_else(|_| panic!("int literal {:?} near {:?}", w, String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())]))) }
            }
        }
    }
    pub fn global(&mut self) -> u64 {
        let n = self.name();
        *self.m.global_addr.get(&n).unwrap_or_else(|| panic!("unknown global @{}", n))
    }
    pub fn cv(&mut self, ty: &Ty) -> Cv {
        match self.peek() {
            b'@' => { self.i += 1; Cv::Int(self.global() as u128) }
            b'{' | b'<' | b'[' => {
                // aggregate
                let packed = self.eat("<");
                let vec_or_struct = self.peek();
                if packed && vec_or_struct != b'{' {
                    let mut v = vec![];
                    loop { let t = self.ty(); v.push(self.cv(&t)); if !self.eat(",") { break; } }
                    self.expect(">");
                    return Cv::Agg(v);
                }
                let close = if self.eat("{") { "}" } else { self.expect("["); "]" };
                let mut v = vec![];
                if !self.eat(close) {
                    loop { let t = self.ty(); v.push(self.cv(&t)); if !self.eat(",") { break; } }
                    self.expect(close);
                }
                if packed { self.expect(">"); }
                Cv::Agg(v)
            }
            _ => {
                let w = self.peek_word();
                match w {
                    "zeroinitializer" => { self.word(); Cv::Zero }
                    "null" | "none" => { self.word(); Cv::Int(0) }
                    "undef" | "poison" => { self.word(); Cv::Undef }
                    "c" => {
                        self.i += 1;
                        self.expect("\"");
                        let mut b = vec![];
                        while self.s[self.i] != b'"' {
                            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { b.push(b'\\'); self.i += 2; }
                            else if self.s[self.i] == b'\\' {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                b.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 3;
                            } else { b.push(self.s[self.i]); self.i += 1; }
                        }
                        self.i += 1;
                        Cv::Bytes(b)
                    }
                    "getelementptr" => {
                        self.word();
                        while self.peek() != b'(' { self.word(); if self.peek() == b'(' && self.s[..self.i].ends_with(b"inrange") { self.skip_parens(); } }
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let base = self.cint(&bt);
                        let mut off = 0i128;
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let k = crate::expr::sext(self.cint(&it), it.bits());
                            if first { off += k * t.size() as i128; first = false; }
                            else { off += cur.field_off(k as usize) as i128; let n = cur.field(if matches!(cur, Ty::Array(..)) { 0 } else { k as usize }).clone(); cur = n; }
                        }
                        self.expect(")");
                        Cv::Int((base as u64).wrapping_add(off as u64) as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" => {
                        self.word();
                        self.expect("(");
                        let t = self.ty();
                        let v = self.cint(&t);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        Cv::Int(v & crate::expr::mask(t2.bits()))
                    }
                    "sub" | "add" | "xor" => {
                        let o = self.word();
                        while self.peek() != b'(' { self.word(); }
                        self.expect("(");
                        let t = self.ty();
                        let a = self.cint(&t);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.cint(&t2);
                        self.expect(")");
                        let r = match o { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b };
                        Cv::Int(r & crate::expr::mask(t.bits()))
                    }
                    "splat" => {
                        self.word();
                        self.expect("(");
                        let t = self.ty();
                        let v = self.cv(&t);
                        self.expect(")");
                        let n = ty.nfields();
                        Cv::Agg(vec![v; n])
                    }
                    _ => {
                        let v = self.int_lit();
                        let bits = match ty { Ty::Int(b) => *b as u8, Ty::Ptr => 64, Ty::Float(b) => *b, _ => 128 };
                        Cv::Int(v & crate::expr::mask(bits))
                    }
                }
            }
        }
    }
    fn cint(&mut self, t: &Ty) -> u128 {
        match self.cv(t) { Cv::Int(v) => v, Cv::Zero | Cv::Undef => 0, c => panic!("not an int const {:?}", c) }
    }
}

pub fn write_cv(ty: &Ty, c: &Cv, out: &mut [u8]) {
    match c {
        Cv::Zero | Cv::Undef => {}
        Cv::Int(v) => {
            let n = ty.size() as usize;
            let b = v.to_le_bytes();
            for i in 0..n.min(16) { out[i] = b[i]; }
        }
        Cv::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Cv::Agg(v) => {
            for (i, x) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let f = ty.field(i);
                let s = f.size() as usize;
                write_cv(f, x, &mut out[o..o + s]);
            }
        }
    }
}

impl Module {
    pub fn load(path: &str, redirects: HashMap<String, String>) -> &'static mut Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", path, e); std::process::exit(70) }).into_boxed_str());
        let m: &'static mut Module = Box::leak(Box::new(Module {
            text, fns: vec![], fn_by_name: HashMap::new(), globals: vec![], global_addr: HashMap::new(), first_dyn: 0, redirects,
        }));
        let b = text.as_bytes();
        let mut i = 0;
        let mut glines: Vec<(String, usize, usize, bool)> = vec![]; // name, start(after =), end, alias
        let mut order: Vec<(String, Option<(usize, usize)>, bool)> = vec![];
        while i < b.len() {
            let eol = memchr(b, b'\n', i);
            if b[i] == b'@' {
                let mm: &Module = unsafe { &*(m as *const Module) };
                let mut p = P { s: b, i: i + 1, m: mm };
                let n = p.name();
                p.expect("=");
                let rest = &text[p.i..eol];
                let alias = rest.trim_start().split(' ').take(6).any(|w| w == "alias");
                glines.push((n, p.i, eol, alias));
                i = eol + 1;
            } else if b[i..].starts_with(b"define ") || b[i..].starts_with(b"declare ") {
                let def = b[i] == b'd' && b[i + 2] == b'f';
                let at = {
                    // first '@' outside quotes
                    let mut j = i;
                    while b[j] != b'@' { if b[j] == b'"' { j += 1; while b[j] != b'"' { j += 1; } } j += 1; }
                    j
                };
                let mm: &Module = unsafe { &*(m as *const Module) };
                let mut p = P { s: b, i: at + 1, m: mm };
                let n = p.name();
                let weak = text[i..at].contains("extern_weak");
                if def {
                    // body ends at "\n}\n"
                    let mut j = eol;
                    loop {
                        if b[j + 1] == b'}' { break; }
                        j = memchr(b, b'\n', j + 1);
                    }
                    order.push((n, Some((i, j)), weak));
                    i = j + 3;
                } else {
                    order.push((n, None, weak));
                    i = eol + 1;
                }
            } else { i = eol + 1; }
        }
        for (n, def, weak) in order {
            let id = m.fns.len() as u32;
            m.fn_by_name.insert(n.clone(), id);
            // an extern_weak declaration resolves to null
            let addr = if weak && def.is_none() { 0 } else { ((id + 1) as u64) << 32 };
            m.global_addr.insert(n.clone(), addr);
            m.fns.push(FnInfo { name: n, def, weak, compiled: None });
        }
        let mut next = m.fns.len() as u32 + 1;
        for (n, _, _, alias) in &glines {
            if !*alias {
                m.global_addr.insert(n.clone(), (next as u64) << 32);
                next += 1;
            }
        }
        m.first_dyn = next;
        // aliases
        for (n, s, e, alias) in &glines {
            if *alias {
                let mm: &Module = unsafe { &*(m as *const Module) };
                let line = &text[*s..*e];
                let k = line.find("alias").unwrap() + 5;
                let mut p = P { s: &b[..*e], i: s + k, m: mm };
                p.ty();
                p.expect(",");
                let t = p.ty();
                let v = match p.cv(&t) { Cv::Int(v) => v as u64, _ => panic!() };
                m.global_addr.insert(n.clone(), v);
                let f = (v >> 32) as u32 - 1;
                if (f as usize) < m.fns.len() { m.fn_by_name.insert(n.clone(), f); }
            }
        }
        // initialisers
        for (n, s, e, alias) in &glines {
            if *alias { continue; }
            let mm: &Module = unsafe { &*(m as *const Module) };
            let mut p = P { s: &b[..*e], i: *s, m: mm };
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    _ => { if p.peek() == b'(' { p.skip_parens(); } }
                }
            }
            let ty = p.ty();
            let init = if external { None } else {
                let c = p.cv(&ty);
                let mut out = vec![0u8; ty.size() as usize];
                write_cv(&ty, &c, &mut out);
                Some(out)
            };
            m.globals.push(GlobalInfo { name: n.clone(), ty, init, constant });
        }
        m
    }

    pub fn func_of_addr(&self, addr: u64) -> Option<u32> {
        if addr & 0xffff_ffff != 0 { return None; }
        let id = (addr >> 32) as usize;
        if id >= 1 && id <= self.fns.len() { Some(id as u32 - 1) } else { None }
    }

    pub fn compile(&mut self, f: u32) -> Option<&'static Func> {
        if let Some(c) = self.fns[f as usize].compiled { return Some(c); }
        let (s, e) = self.fns[f as usize].def?;
        let func = {
            let mm: &Module = unsafe { &*(self as *const Module) };
            FnCompiler::run(mm, f, s, e)
        };
        let l: &'static Func = Box::leak(Box::new(func));
        self.fns[f as usize].compiled = Some(l);
        Some(l)
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    match b[from..].iter().position(|x| *x == c) { Some(p) => from + p, None => b.len() }
}

struct FnCompiler<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    tys: HashMap<u32, Ty>,
}

impl<'a> FnCompiler<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Opd::R(self.reg(n));
        }
        match self.p.cv(ty) {
            Cv::Int(v) => if v <= u64::MAX as u128 { Opd::K(v as u64) } else { Opd::W(v) },
            Cv::Zero | Cv::Undef if matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) => Opd::K(0),
            c => Opd::A(Box::new((ty.clone(), c))),
        }
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        self.p.skip_attrs();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        self.p.ws();
        self.p.expect("%");
        let n = self.p.name();
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn run(m: &'a Module, f: u32, s: usize, e: usize) -> Func {
        let text = m.text.as_bytes();
        let mut c = FnCompiler { p: P { s: &text[..e], i: s, m }, regs: HashMap::new(), labels: HashMap::new(), tys: HashMap::new() };
        // header
        while c.p.s[c.p.i] != b'@' { if c.p.s[c.p.i] == b'"' { c.p.i += 1; while c.p.s[c.p.i] != b'"' { c.p.i += 1; } } c.p.i += 1; }
        c.p.i += 1;
        c.p.name();
        c.p.expect("(");
        let mut params = vec![];
        if !c.p.eat(")") {
            let mut anon = 0;
            loop {
                if c.p.eat("...") { break; }
                let t = c.p.ty();
                c.p.skip_attrs();
                let n = if c.p.peek() == b'%' { c.p.i += 1; c.p.name() } else { anon += 1; format!("{}", anon - 1) };
                let r = c.reg(n);
                c.tys.insert(r, t);
                params.push(r);
                if !c.p.eat(",") { break; }
            }
            c.p.expect(")");
        }
        // skip to end of header line
        while c.p.s[c.p.i] != b'\n' { c.p.i += 1; }
        c.p.i += 1;
        let mut code: Vec<I> = vec![];
        let mut block_start: HashMap<u32, u32> = HashMap::new();
        let mut cur_block = u32::MAX;
        // phi: (block, dst, [(opd, predlabel)])
        let mut phis: Vec<(u32, u32, Vec<(Opd, u32)>)> = vec![];
        let mut edge_src: Vec<u32> = vec![]; // block of each instruction
        let mut first = true;
        while c.p.i < e {
            // line start
            let ls = c.p.i;
            let le = memchr(c.p.s, b'\n', ls);
            if le == ls { c.p.i = le + 1; continue; }
            let ch = c.p.s[ls];
            if ch != b' ' && ch != b'\t' {
                if ch == b';' || ch == b'}' { c.p.i = le + 1; continue; }
                // label
                let n = c.p.name();
                let k = c.labels.len() as u32;
                let l = *c.labels.entry(n).or_insert(k);
                cur_block = l;
                block_start.insert(l, code.len() as u32);
                c.p.i = le + 1;
                first = false;
                continue;
            }
            if first {
                // implicit entry block label
                let k = c.labels.len() as u32;
                cur_block = *c.labels.entry("<entry>".into()).or_insert(k);
                block_start.insert(cur_block, 0);
                first = false;
            }
            c.p.ws();
            if c.p.s[c.p.i] == b';' || c.p.s[c.p.i] == b'#' { c.p.i = le + 1; continue; }
            let before = c.p.i;
            let ins = c.instr(cur_block, &mut phis);
            let is_switch = matches!(ins, Some(I::Switch(..)));
            if let Some(ins) = ins {
                code.push(ins);
                edge_src.push(cur_block);
            }
            // move to next line start
            let from = if is_switch { c.p.i } else { before };
            let nl = memchr(c.p.s, b'\n', from);
            c.p.i = nl + 1;
        }
        // resolve edges
        let mut phi_by_edge: HashMap<(u32, u32), Vec<(u32, Opd)>> = HashMap::new();
        for (blk, dst, ins) in phis {
            for (o, pred) in ins {
                let v = phi_by_edge.entry((pred, blk)).or_default();
                if !v.iter().any(|(d, _)| *d == dst) { v.push((dst, o)); }
            }
        }
        let fix = |ed: &mut Edge, src: u32| {
            let blk = ed.block;
            ed.target = *block_start.get(&blk).expect("block");
            if let Some(mv) = phi_by_edge.get(&(src, blk)) { ed.moves = mv.clone(); }
        };
        for (k, ins) in code.iter_mut().enumerate() {
            let src = edge_src[k];
            match ins {
                I::Br(a) => fix(a, src),
                I::CondBr(_, a, b) => { fix(a, src); fix(b, src); }
                I::Switch(_, _, v, d) => { for (_, x) in v.iter_mut() { fix(x, src); } fix(d, src); }
                _ => {}
            }
        }
        Func { id: f, name: m.fns[f as usize].name.clone(), nregs: c.regs.len() as u32, params, code }
    }
    fn edge(&mut self) -> Edge { let l = self.label(); Edge { target: 0, moves: vec![], block: l } }

    fn instr(&mut self, blk: u32, phis: &mut Vec<(u32, u32, Vec<(Opd, u32)>)>) -> Option<I> {
        let mut dst = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            dst = Some(self.reg(n));
            self.p.expect("=");
        }
        let w = self.p.word();
        let d = dst.unwrap_or(u32::MAX);
        let bin = |o: &str| Some(match o {
            "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
            "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None,
        });
        if let Some(op) = bin(w) {
            while !self.p.is_type_start() { self.p.word(); }
            let t = self.p.ty();
            let a = self.opd(&t);
            self.p.expect(",");
            let b = self.opd(&t);
            if !matches!(t, Ty::Int(_)) { return Some(I::Unsupported(format!("{} on {:?}", w, t))); }
            return Some(I::Bin(op, t.bits(), d, a, b));
        }
        Some(match w {
            "icmp" => {
                while self.p.peek_word() == "samesign" { self.p.word(); }
                let p = match self.p.word() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("pred {}", x),
                };
                let t = self.p.ty();
                let a = self.opd(&t);
                self.p.expect(",");
                let b = self.opd(&t);
                if !matches!(t, Ty::Int(_) | Ty::Ptr) { return Some(I::Unsupported(format!("icmp {:?}", t))); }
                I::Icmp(p, t.bits(), d, a, b)
            }
            "select" => {
                while !self.p.is_type_start() { self.p.word(); }
                let (ct, c) = self.tyopd();
                self.p.expect(",");
                let (t, a) = self.tyopd();
                self.p.expect(",");
                let (_, b) = self.tyopd();
                if ct != Ty::Int(1) { return Some(I::Unsupported("vector select".into())); }
                let bits = match t { Ty::Int(b) => b as u8, Ty::Float(b) => b, Ty::Ptr => 255, _ => 254 };
                I::Select(d, c, a, b, bits)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while !self.p.is_type_start() { self.p.word(); }
                let (t, a) = self.tyopd();
                self.p.expect("to");
                let t2 = self.p.ty();
                if !matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) || !matches!(t2, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) { return Some(I::Unsupported(format!("cast {:?} {:?}", t, t2))); }
                let k = match w {
                    "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt,
                    _ => if t.bits() < t2.bits() { CastK::ZExt } else if t.bits() > t2.bits() { CastK::Trunc } else { CastK::Same },
                };
                I::Cast(k, t.bits(), t2.bits(), d, a)
            }
            "freeze" => {
                let (t, a) = self.tyopd();
                let b = match t { Ty::Int(_) | Ty::Ptr | Ty::Float(_) => t.bits(), _ => 0 };
                I::Cast(CastK::Same, b, b, d, a)
            }
            "load" => {
                while !self.p.is_type_start() { self.p.word(); }
                let t = self.p.ty();
                self.p.expect(",");
                let (_, a) = self.tyopd();
                I::Load(d, t, a)
            }
            "store" => {
                while !self.p.is_type_start() { self.p.word(); }
                let (t, v) = self.tyopd();
                self.p.expect(",");
                let (_, a) = self.tyopd();
                I::Store(t, v, a)
            }
            "getelementptr" => {
                while !self.p.is_type_start() { let x = self.p.word(); if x == "inrange" { self.p.skip_parens(); } }
                let t = self.p.ty();
                self.p.expect(",");
                let (_, base) = self.tyopd();
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while self.p.eat(",") {
                    if self.p.peek() == b'!' { break; }
                    let (it, k) = self.tyopd();
                    if first {
                        first = false;
                        match k {
                            Opd::K(k) => off = off.wrapping_add((crate::expr::sext(k as u128, it.bits()) as i64).wrapping_mul(t.size() as i64)),
                            o => terms.push((o, t.size(), it.bits())),
                        }
                    } else {
                        match k {
                            Opd::K(k) => {
                                let ki = crate::expr::sext(k as u128, it.bits()) as i64;
                                match &cur {
                                    Ty::Array(_, e) => off = off.wrapping_add(ki.wrapping_mul(e.size() as i64)),
                                    _ => off += cur.field_off(ki as usize) as i64,
                                }
                                let n = cur.field(if matches!(cur, Ty::Array(..)) { 0 } else { ki as usize }).clone();
                                cur = n;
                            }
                            o => {
                                let es = cur.field(0).clone();
                                terms.push((o, es.size(), it.bits()));
                                cur = es;
                            }
                        }
                    }
                }
                I::Gep(d, base, off, terms)
            }
            "alloca" => {
                while !self.p.is_type_start() { self.p.word(); }
                let t = self.p.ty();
                let mut n = Opd::K(1);
                while self.p.eat(",") {
                    if self.p.is_type_start() { let (_, o) = self.tyopd(); n = o; } else { self.p.word(); self.p.word(); }
                }
                I::Alloca(d, n, t.size())
            }
            "tail" | "notail" | "musttail" => { self.p.expect("call"); return Some(self.call(dst)); }
            "call" => return Some(self.call(dst)),
            "br" => {
                if self.p.peek_word() == "label" { I::Br(self.edge()) } else {
                    let (_, c) = self.tyopd();
                    self.p.expect(",");
                    let a = self.edge();
                    self.p.expect(",");
                    let b = self.edge();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd();
                self.p.expect(",");
                let def = self.edge();
                self.p.expect("[");
                let mut cases = vec![];
                while !self.p.eat("]") {
                    let (_, k) = self.tyopd();
                    self.p.expect(",");
                    let ed = self.edge();
                    let kv = match k { Opd::K(k) => k as u128, Opd::W(w) => w, _ => panic!() };
                    cases.push((kv, ed));
                }
                I::Switch(t.bits(), v, cases, def)
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void { I::Ret(None) } else { let o = self.opd(&t); I::Ret(Some(o)) }
            }
            "unreachable" => I::Unreachable,
            "phi" => {
                while !self.p.is_type_start() { self.p.word(); }
                let t = self.p.ty();
                let mut v = vec![];
                loop {
                    self.p.expect("[");
                    let o = self.opd(&t);
                    self.p.expect(",");
                    self.p.expect("%");
                    let n = self.p.name();
                    let k = self.labels.len() as u32;
                    let l = *self.labels.entry(n).or_insert(k);
                    self.p.expect("]");
                    v.push((o, l));
                    if !self.p.eat(",") { break; }
                    if self.p.peek() == b'!' { break; }
                }
                phis.push((blk, d, v));
                return None;
            }
            "extractvalue" => {
                let (t, a) = self.tyopd();
                let mut ix = vec![];
                while self.p.eat(",") { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().unwrap()); }
                I::Extract(d, a, ix, t)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd();
                self.p.expect(",");
                let (_, v) = self.tyopd();
                let mut ix = vec![];
                while self.p.eat(",") { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().unwrap()); }
                I::Insert(d, a, v, ix, t)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                while matches!(self.p.peek_word(), "volatile" | "elementwise") { self.p.word(); }
                let o = match self.p.word() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or,
                    "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("rmw {}", x),
                };
                let (_, a) = self.tyopd();
                self.p.expect(",");
                let (t, v) = self.tyopd();
                I::AtomicRmw(o, t.bits(), d, a, v)
            }
            "cmpxchg" => {
                while matches!(self.p.peek_word(), "volatile" | "weak") { self.p.word(); }
                let (_, a) = self.tyopd();
                self.p.expect(",");
                let (t, x) = self.tyopd();
                self.p.expect(",");
                let (_, y) = self.tyopd();
                I::CmpXchg(t.bits(), d, a, x, y)
            }
            other => I::Unsupported(other.to_string()),
        })
    }
    fn call(&mut self, dst: Option<u32>) -> I {
        // calling convention, return attributes
        loop {
            if self.p.is_type_start() { break; }
            let w = self.p.peek_word();
            if w.is_empty() { panic!("call syntax near {:?}", String::from_utf8_lossy(&self.p.s[self.p.i..(self.p.i + 80).min(self.p.s.len())])); }
            self.p.word();
            if w == "align" { if self.p.peek() == b'(' { self.p.skip_parens(); } else { self.p.word(); } continue; }
            if self.p.peek() == b'(' { self.p.skip_parens(); }
        }
        let rt = self.p.ty();
        if self.p.peek() == b'(' { self.p.skip_parens(); }
        let rbits = match rt { Ty::Int(b) => b as u8, Ty::Ptr => 64, Ty::Float(b) => b, _ => 0 };
        let callee = match self.p.peek() {
            b'%' => { self.p.i += 1; let n = self.p.name(); Callee::Dyn(Opd::R(self.reg(n))) }
            b'@' => {
                self.p.i += 1;
                let n = self.p.name();
                let n2 = self.p.m.redirects.get(&n).cloned().unwrap_or(n);
                match self.p.m.fn_by_name.get(&n2) {
                    Some(f) => Callee::Fn(*f),
                    None => return { I::Unsupported(format!("call of unknown @{}", n2)) },
                }
            }
            _ => {
                if self.p.peek_word() == "asm" { 
                    let end = memchr(self.p.s, b'\n', self.p.i);
                    let st = self.p.i;
                    let s = String::from_utf8_lossy(&self.p.s[st..end.min(st+100)]).into_owned();
                    return if s.contains("asm sideeffect \"\"") { I::Nop } else { I::Unsupported(s) };
                }
                let c = self.p.cv(&Ty::Ptr);
                match c { Cv::Int(v) => Callee::Dyn(Opd::K(v as u64)), _ => panic!("callee") }
            }
        };
        self.p.expect("(");
        let mut args = vec![];
        if !self.p.eat(")") {
            loop {
                let t = self.p.ty();
                if t == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    loop { let ch = self.p.s[self.p.i]; if d == 0 && (ch == b',' || ch == b')') { break; } if ch == b'(' { d += 1 } if ch == b')' { d -= 1 } self.p.i += 1; }
                    args.push((Opd::K(0), 64));
                } else {
                    self.p.skip_attrs();
                    let o = self.opd(&t);
                    let b = match t { Ty::Int(b) => b as u8, Ty::Ptr => 64, Ty::Float(b) => b, _ => 0 };
                    args.push((o, b));
                }
                if !self.p.eat(",") { break; }
            }
            self.p.expect(")");
        }
        I::Call(dst, callee, args, rbits)
    }
}
