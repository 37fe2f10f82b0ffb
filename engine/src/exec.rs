//! The symbolic executor.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub pc: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret_dst: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Obs {
    Val(V),
    Bytes(Vec<(u8, E)>),
}

pub type Dom = Rc<[u64; 4]>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub mem: Mem,
    pub doms: Rc<Vec<Option<Dom>>>,
    pub cons: Rc<Vec<E>>,
    pub multi: Rc<BTreeSet<u32>>,
    pub model: Rc<Vec<u128>>,
    pub inputs: Rc<Vec<u32>>, // var keys in order
    pub obs: Rc<Vec<Obs>>,
    pub reach: Rc<BTreeSet<String>>,
    pub fixed: Rc<HashMap<E, u64>>,
    pub tls: Rc<Vec<u64>>,
    pub steps: u64,
    pub forks: u32,
    pub sched: bool,
}

pub enum Ctl {
    Split(E, Vec<u64>),
    End(End),
}
#[derive(Clone, Debug)]
pub enum End {
    Return,
    Panic(String),
    Mem(String),
    Assume,
    Fail(String),
    Steps,
    Unsupported(String),
}
type R<T> = Result<T, Ctl>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u128)>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub ok_paths: u64,
    pub assumed_out: u64,
    pub instrs: u64,
    pub forks: u64,
    pub branches: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub dom_checks: u64,
    pub cache_hits: u64,
    pub unknown: u64,
    pub max_steps: u64,
    pub max_inputs: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Bi {
    None, Alloc, AllocZeroed, Dealloc, Realloc, Nop, NopZero, Memcmp, Malloc, Calloc, Free, CRealloc, PosixMemalign,
    Errno, Dlsym, KeyCreate, KeyGet, KeySet, PanicFmt, PanicBegin, AllocErr, Abort, Trap,
    SymU8, SymU16, SymU32, SymU64, Choose, Assume, Assert, Observe, ObserveBytes, Reach, Param, Fail, IsSym, Concretize, Note,
    Memcpy, Memset, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UAddSat, USubSat, SAddSat, SSubSat, UMin, UMax, SMin, SMax,
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr, Abs, UCmp, SCmp, LoadRel, Tla, Expect, Unsup, PtrMask, Objsize, IsConst,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub params: Vec<u64>,
    pub max_viol: usize,
    pub viol_paths: u64,
    pub case_limit: usize,
    pub seed: u64,
    pub verbose: bool,
    pub trace: bool,
    pub trace_from: u64,
    pub max_split: usize,
}

pub struct Engine {
    pub m: &'static mut Module,
    pub ar: Arena,
    pub z3: Z3,
    pub bi: Vec<Bi>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub cfg: Cfg,
    pub viols: Vec<Violation>,
    pub viol_seen: HashSet<String>,
    pub cases: Vec<(Vec<(u8, u128)>, Vec<String>, Vec<String>)>,
    pub rng: u64,
    pub viol_paths: u64,
    pub reached: BTreeSet<String>,
    pub funcs: Vec<u64>,
    pub incomplete: Option<String>,
    pub start: Instant,
    qcache: HashMap<Vec<E>, (Res, Rc<Vec<(u32, u128)>>)>,
    domcache: HashMap<(E, E), bool>,
    pub notes: Vec<String>,
    pub prof: HashMap<(u32, u32), u64>,
    errno: u64,
}

static mut TRACE: bool = false;
const UNSUP: &str = "unsupported";

fn full() -> [u64; 4] { [!0; 4] }

impl Engine {
    pub fn new(m: &'static mut Module, cfg: Cfg, timeout_ms: u32, simple: bool) -> Engine {
        let mut bi = vec![Bi::None; m.fns.len()];
        for (i, f) in m.fns.iter().enumerate() { bi[i] = classify(&f.name, f.def.is_some()); }
        let nf = m.fns.len();
        let rng = cfg.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        Engine {
            m, ar: Arena::new(), z3: Z3::new(timeout_ms, simple), bi, work: vec![], stats: Default::default(), cfg, viols: vec![], viol_seen: HashSet::new(),
            cases: vec![], rng, viol_paths: 0, reached: BTreeSet::new(), funcs: vec![0; nf], incomplete: None, start: Instant::now(),
            qcache: HashMap::new(), domcache: HashMap::new(), notes: vec![], prof: HashMap::new(), errno: 0,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        let nf = self.m.fns.len() as u32;
        for (i, g) in self.m.globals.iter().enumerate() {
            let id = nf + 1 + i as u32;
            let size = g.ty.size() as usize;
            let data = match &g.init { Some(d) => d.clone(), None => vec![0; size] };
            mem.put(id, Some(Rc::new(Obj { data, sym: vec![], ro: g.constant, heap: false })));
        }
        mem.set_next(self.m.first_dyn);
        self.errno = (mem.alloc(8, 0, false) as u64) << 32;
        let f = *self.m.fn_by_name.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(70) });
        let func = self.m.compile(f).expect("entry has no body");
        State {
            frames: vec![],
            cur: Frame { func, pc: 0, regs: vec![V::C(0); func.nregs as usize], allocas: vec![], ret_dst: None },
            mem,
            doms: Rc::new(vec![]), cons: Rc::new(vec![]), multi: Rc::new(BTreeSet::new()), model: Rc::new(vec![]), inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]), reach: Rc::new(BTreeSet::new()), fixed: Rc::new(HashMap::new()), tls: Rc::new(vec![]), steps: 0, forks: 0, sched: false,
        }
    }

    // ---------------------------------------------------------------- constraints

    fn model_val(st: &State, key: u32) -> u128 { st.model[(key / 5) as usize] }

    pub fn eval_model(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.ar.eval(e, &|k| m[(k / 5) as usize])
    }

    fn conjuncts(&mut self, e: E, out: &mut Vec<E>) {
        let n = *self.ar.n(e);
        if n.op == Op::And && n.w == 1 {
            self.conjuncts(n.a, out);
            self.conjuncts(n.b, out);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && self.ar.cv(n.b) == Some(1) {
            let i = *self.ar.n(n.a);
            if i.op == Op::Or && i.w == 1 {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.conjuncts(x, out);
                self.conjuncts(y, out);
                return;
            }
        }
        out.push(e);
    }

    fn dom(st: &State, key: u32) -> [u64; 4] {
        match st.doms.get((key / 5) as usize) { Some(Some(d)) => **d, _ => full() }
    }

    fn add_cons(&mut self, st: &mut State, e: E) {
        let mut parts = vec![];
        self.conjuncts(e, &mut parts);
        for p in parts {
            if p == T { continue; }
            if let Some(k) = self.ar.single8(p) {
                let t = self.ar.truth(p);
                let d = Self::dom(st, k);
                let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
                let dv = Rc::make_mut(&mut st.doms);
                let i = (k / 5) as usize;
                while dv.len() <= i { dv.push(None); }
                dv[i] = Some(Rc::new(nd));
            } else {
                if st.cons.contains(&p) { continue; }
                for v in self.ar.var_list(p) { Rc::make_mut(&mut st.multi).insert(v); }
                Rc::make_mut(&mut st.cons).push(p);
            }
        }
    }

    fn dom_expr(&mut self, d: &[u64; 4], key: u32) -> E {
        if *d == full() { return T; }
        let v = self.ar.var_by_key(key);
        let vals: Vec<u128> = (0..256).map(|i| ((d[i >> 6] >> (i & 63)) & 1) as u128).collect();
        self.ar.table(v, vals, 1)
    }

    /// Is pc && e satisfiable? Returns updated variable values on success.
    fn feasible(&mut self, st: &State, e: E) -> Result<Option<Vec<(u32, u128)>>, ()> {
        if e == F { return Ok(None); }
        if e == T { return Ok(Some(vec![])); }
        let mut parts = vec![];
        self.conjuncts(e, &mut parts);
        // pure domain case
        let mut ok = true;
        for &p in &parts {
            match self.ar.single8(p) { Some(k) if !st.multi.contains(&k) => {} _ => { if p != T { ok = false; break; } } }
        }
        if ok {
            let mut ds: Vec<(u32, [u64; 4])> = vec![];
            for &p in &parts {
                if p == T { continue; }
                let k = self.ar.single8(p).unwrap();
                let t = self.ar.truth(p);
                let i = match ds.iter().position(|x| x.0 == k) { Some(i) => i, None => { ds.push((k, Self::dom(st, k))); ds.len() - 1 } };
                let before = ds[i].1;
                let r = [before[0] & t[0], before[1] & t[1], before[2] & t[2], before[3] & t[3]];
                // cross-check with the SMT solver (memoised)
                let de = self.dom_expr(&before, k);
                let sat = r != [0; 4];
                let key = (de, p);
                match self.domcache.get(&key) {
                    Some(b) => { if *b != sat { eprintln!("domain/SMT disagreement"); std::process::exit(71); } self.stats.cache_hits += 1; }
                    None => {
                        self.stats.dom_checks += 1;
                        let (res, _) = self.z3.check(&mut self.ar, &[de, p], &[]);
                        match res {
                            Res::Unknown => { self.stats.unknown += 1; return Err(()); }
                            r => if (r == Res::Sat) != sat {
                                eprintln!("domain/SMT disagreement on {}", self.ar.show(p, 8)); std::process::exit(71);
                            },
                        }
                        self.domcache.insert(key, sat);
                    }
                }
                if !sat { return Ok(None); }
                ds[i].1 = r;
            }
            let mut upd = vec![];
            for (k, d) in ds {
                let cur = Self::model_val(st, k) as usize;
                if (d[cur >> 6] >> (cur & 63)) & 1 == 1 { continue; }
                let mut val = None;
                for w in 0..4 { if d[w] != 0 { val = Some(w * 64 + d[w].trailing_zeros() as usize); break; } }
                upd.push((k, val.unwrap() as u128));
            }
            return Ok(Some(upd));
        }
        // slice
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &p in &parts { for v in self.ar.var_list(p) { vars.insert(v); } }
        let mut chosen: Vec<bool> = vec![false; st.cons.len()];
        let mut set: Vec<E> = parts.clone();
        loop {
            let mut grew = false;
            for (i, c) in st.cons.iter().enumerate() {
                if chosen[i] { continue; }
                let vl = self.ar.var_list(*c);
                if vl.iter().any(|v| vars.contains(v)) {
                    chosen[i] = true;
                    set.push(*c);
                    for v in vl { if vars.insert(v) { grew = true; } }
                }
            }
            if !grew { break; }
        }
        for &k in &vars {
            if var_width(k) == 8 {
                let d = Self::dom(st, k);
                if d != full() { let de = self.dom_expr(&d, k); set.push(de); }
            }
        }
        set.sort();
        set.dedup();
        if let Some((r, m)) = self.qcache.get(&set) {
            self.stats.cache_hits += 1;
            return match r { Res::Sat => Ok(Some((**m).clone())), Res::Unsat => Ok(None), Res::Unknown => Err(()) };
        }
        let want: Vec<u32> = vars.into_iter().collect();
        let (r, vals) = self.z3.check(&mut self.ar, &set, &want);
        self.qcache.insert(set, (r, Rc::new(vals.clone())));
        match r {
            Res::Sat => Ok(Some(vals)),
            Res::Unsat => Ok(None),
            Res::Unknown => { self.stats.unknown += 1; Err(()) }
        }
    }

    fn note_unknown(&mut self) {
        if self.incomplete.is_none() { self.incomplete = Some("solver returned unknown".into()); }
    }

    /// A copy of `st` with `e` added, if satisfiable.
    fn other(&mut self, st: &State, e: E) -> Option<State> {
        match self.feasible(st, e) {
            Ok(None) => None,
            Err(()) => { self.note_unknown(); None }
            Ok(Some(upd)) => {
                let mut o = st.clone();
                if !upd.is_empty() {
                    let m = Rc::make_mut(&mut o.model);
                    for (k, v) in upd { m[(k / 5) as usize] = v; }
                }
                self.add_cons(&mut o, e);
                o.forks += 1;
                self.stats.forks += 1;
                Some(o)
            }
        }
    }

    /// Branch on a width-1 expression; returns the side the current state takes and pushes the other if feasible.
    /// `fix` adjusts the other state (which gets the opposite truth value).
    fn branch(&mut self, st: &mut State, c: E, fix: impl FnOnce(&mut Engine, &mut State, bool)) -> bool {
        self.stats.branches += 1;
        let side = self.eval_model(st, c) != 0;
        let n = self.ar.not(c);
        let (mine, oth) = if side { (c, n) } else { (n, c) };
        if self.cfg.verbose { *self.prof.entry((st.cur.func.id, st.cur.pc)).or_insert(0) += 1; }
        if let Some(mut o) = self.other(st, oth) {
            fix(self, &mut o, !side);
            self.work.push(o);
            self.add_cons(st, mine);
            st.forks += 1;
        }
        // when the other side is infeasible `mine` is implied and need not be added
        side
    }

    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::W(w) => return Ok(**w as u64),
            V::A(_) => return Err(Ctl::End(End::Unsupported("aggregate as integer".into()))),
            V::E(e) => *e,
        };
        if let Some(c) = self.ar.cv(e) { return Ok(c as u64); }
        if let Some(c) = st.fixed.get(&e) { return Ok(*c); }
        let mut vals: Vec<u64> = vec![];
        let cur = self.eval_model(st, e) as u64;
        vals.push(cur);
        if let Some(k) = self.ar.single8(e) {
            let d = Self::dom(st, k);
            let mut cand: Vec<u64> = vec![];
            for x in 0..256usize {
                if (d[x >> 6] >> (x & 63)) & 1 == 1 {
                    let y = self.ar.eval(e, &|_| x as u128) as u64;
                    if y != cur && !cand.contains(&y) { cand.push(y); }
                }
            }
            for y in cand {
                if st.multi.contains(&k) {
                    let kk = self.ar.konst(y as u128, self.ar.w(e));
                    let q = self.ar.bin(Op::Eq, e, kk);
                    match self.feasible(st, q) { Ok(Some(_)) => vals.push(y), Ok(None) => {} Err(()) => self.note_unknown() }
                } else { vals.push(y); }
            }
        } else {
            let w = self.ar.w(e);
            let mut q = T;
            loop {
                let last = *vals.last().unwrap();
                let kk = self.ar.konst(last as u128, w);
                let eq = self.ar.bin(Op::Eq, e, kk);
                let ne = self.ar.not(eq);
                q = self.ar.bin(Op::And, q, ne);
                match self.feasible(st, q) {
                    Ok(None) => break,
                    Err(()) => { self.note_unknown(); break; }
                    Ok(Some(upd)) => {
                        let m = st.model.clone();
                        let y = self.ar.eval(e, &|k| upd.iter().find(|u| u.0 == k).map(|u| u.1).unwrap_or_else(|| m[(k / 5) as usize])) as u64;
                        vals.push(y);
                    }
                }
                if vals.len() > self.cfg.max_split {
                    return Err(Ctl::End(End::Unsupported(format!("more than {} values for {}", self.cfg.max_split, self.ar.show(e, 4)))));
                }
            }
        }
        if vals.len() == 1 {
            Rc::make_mut(&mut st.fixed).insert(e, cur);
            return Ok(cur);
        }
        Err(Ctl::Split(e, vals))
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn val(st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(k) => V::C(*k),
            Opd::W(w) => V::W(Rc::new(*w)),
            Opd::A(b) => cv_to_v(&b.0, &b.1),
        }
    }
    fn to_e(&mut self, v: &V, w: u8) -> E {
        match v {
            V::C(c) => self.ar.konst(*c as u128, w),
            V::W(c) => self.ar.konst(**c, w),
            V::E(e) => { debug_assert_eq!(self.ar.w(*e), w); *e }
            V::A(_) => panic!("aggregate in expression"),
        }
    }
    fn from_e(&self, e: E) -> V {
        match self.ar.cv(e) { Some(c) => mkc(c), None => V::E(e) }
    }
    fn cint(v: &V) -> Option<u128> {
        match v { V::C(c) => Some(*c as u128), V::W(c) => Some(**c), _ => None }
    }

    fn oob(&self, st: &State, what: &str, addr: u64, n: u64) -> Ctl {
        let id = (addr >> 32) as u32;
        let size = st.mem.get(id).map(|o| o.data.len());
        Ctl::End(End::Mem(format!("{} of {} bytes at object {} offset {} (object size {:?}) in {}", what, n, id, addr & 0xffffffff, size, st.cur.func.name)))
    }

    fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<V> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        let o = match st.mem.get(id) { Some(o) if off + n <= o.data.len() => o, _ => return Err(self.oob(st, "read", addr, n as u64)) };
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(mkc(v));
        }
        let mut r: Option<E> = None;
        for i in (0..n).rev() {
            let e = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.ar.konst(o.data[off + i] as u128, 8) };
            r = Some(match r { None => e, Some(h) => self.ar.concat(h, e) });
        }
        Ok(self.from_e(r.unwrap()))
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(b) => {
                let n = (*b as u64 + 7) / 8;
                let v = self.load_bytes(st, addr, n)?;
                if *b as u64 != n * 8 {
                    return Ok(match v {
                        V::C(c) => V::C(c & mask(*b as u8) as u64),
                        V::W(c) => mkc(*c & mask(*b as u8)),
                        V::E(e) => { let x = self.ar.extract(e, *b as u8 - 1, 0); self.from_e(x) }
                        x => x,
                    });
                }
                Ok(v)
            }
            Ty::Ptr => self.load_bytes(st, addr, 8),
            Ty::Float(b) => self.load_bytes(st, addr, *b as u64 / 8),
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() { v.push(self.load_ty(st, addr + ty.field_off(i), ty.field(i))?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Ctl::End(End::Unsupported("load type".into()))),
        }
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, v: &V, n: u64) -> R<()> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        match st.mem.get(id) {
            Some(o) if off + n <= o.data.len() => { if o.ro { return Err(self.oob(st, "write to read-only memory", addr, n as u64)); } }
            _ => return Err(self.oob(st, "write", addr, n as u64)),
        }
        match v {
            V::E(e) => {
                let w = self.ar.w(*e);
                let e = if (w as usize) < n * 8 { self.ar.zext(*e, (n * 8) as u8) } else { *e };
                let mut parts = [0u32; 16];
                for i in 0..n { parts[i] = self.ar.extract(e, (i * 8 + 7) as u8, (i * 8) as u8); }
                let ar = &self.ar;
                let o = st.mem.get_mut(id).unwrap();
                if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                for i in 0..n {
                    match ar.cv(parts[i]) {
                        Some(c) => { o.data[off + i] = c as u8; o.sym[off + i] = 0; }
                        None => o.sym[off + i] = parts[i],
                    }
                }
            }
            _ => {
                let c = Self::cint(v).unwrap();
                let o = st.mem.get_mut(id).unwrap();
                let b = c.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = 0; } }
            }
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(..), V::A(a)) | (Ty::Array(..), V::A(a)) => {
                for i in 0..ty.nfields() { self.store_ty(st, addr + ty.field_off(i), ty.field(i), &a[i])?; }
                Ok(())
            }
            (Ty::Int(b), _) => self.store_bytes(st, addr, v, (*b as u64 + 7) / 8),
            (Ty::Ptr, _) => self.store_bytes(st, addr, v, 8),
            (Ty::Float(b), _) => self.store_bytes(st, addr, v, *b as u64 / 8),
            _ => Err(Ctl::End(End::Unsupported("store type".into()))),
        }
    }
    pub fn read_mem(&self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 { return Ok(vec![]); }
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        let o = match st.mem.get(id) { Some(o) if off + n <= o.data.len() => o, _ => return Err(self.oob(st, "read", addr, n as u64)) };
        Ok((0..n).map(|i| (o.data[off + i], if o.sym.is_empty() { 0 } else { o.sym[off + i] })).collect())
    }
    fn copy_mem(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = ((s >> 32) as u32, (s & 0xffff_ffff) as usize);
        let (di, dof) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let n = n as usize;
        let src = match st.mem.get(si) { Some(o) if so + n <= o.data.len() => o.clone(), _ => return Err(self.oob(st, "copy from", s, n as u64)) };
        match st.mem.get(di) { Some(o) if dof + n <= o.data.len() => { if o.ro { return Err(self.oob(st, "write to read-only memory", d, n as u64)); } } _ => return Err(self.oob(st, "copy to", d, n as u64)) };
        // `src` holds a second reference, so an overlapping copy within one object is made on a fresh copy
        let o = st.mem.get_mut(di).unwrap();
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        let src_sym = !src.sym.is_empty() && src.sym[so..so + n].iter().any(|e| *e != 0);
        if src_sym {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[dof..dof + n] { *x = 0; }
        }
        Ok(())
    }
    fn read_str(&mut self, st: &State, addr: u64, n: u64) -> String {
        match self.read_mem(st, addr, n) {
            Ok(b) => {
                let v: Vec<u8> = b.iter().map(|(c, e)| if *e == 0 { *c } else { self.eval_model(st, *e) as u8 }).collect();
                String::from_utf8_lossy(&v).into_owned()
            }
            Err(_) => "?".into(),
        }
    }

    /// load through a symbolic address
    fn load_symaddr(&mut self, st: &mut State, ty: &Ty, e: E) -> R<V> {
        if let (Some(k), true) = (self.ar.single8(e), matches!(ty, Ty::Int(_))) {
            let d = Self::dom(st, k);
            let mut vals = vec![0u128; 256];
            let mut ok = true;
            for x in 0..256usize {
                if (d[x >> 6] >> (x & 63)) & 1 == 0 { continue; }
                let a = self.ar.eval(e, &|_| x as u128) as u64;
                match self.load_ty(st, a, ty) {
                    Ok(v) => match Self::cint(&v) { Some(c) => vals[x] = c, None => { ok = false; break; } },
                    Err(_) => { ok = false; break; }
                }
            }
            if ok {
                let v = self.ar.var_by_key(k);
                let t = self.ar.table(v, vals, ty.bits());
                return Ok(self.from_e(t));
            }
        }
        match self.conc(st, &V::E(e)) {
            Ok(a) => self.load_ty(st, a, ty),
            // several addresses: one value depending on the address rather than one path each
            Err(Ctl::Split(x, vals)) => {
                if !matches!(ty, Ty::Int(_)) { return Err(Ctl::Split(x, vals)); }
                let w = self.ar.w(e);
                let mut r: Option<E> = None;
                for a in vals.iter() {
                    let v = match self.load_ty(st, *a, ty) { Ok(v) => v, Err(_) => return Err(Ctl::Split(x, vals)) };
                    if matches!(v, V::A(_)) { return Err(Ctl::Split(x, vals)); }
                    let v = self.to_e(&v, ty.bits());
                    r = Some(match r { None => v, Some(o) => { let k = self.ar.konst(*a as u128, w); let c = self.ar.bin(Op::Eq, e, k); self.ar.ite(c, v, o) } });
                }
                Ok(self.from_e(r.unwrap()))
            }
            Err(x) => Err(x),
        }
    }

    // ---------------------------------------------------------------- main loop

    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                self.incomplete = Some(format!("time limit {} s, {} states left", self.cfg.max_secs, self.work.len() + 1));
                break;
            }
            if self.stats.paths >= self.cfg.max_paths {
                self.incomplete = Some(format!("path limit {}", self.cfg.max_paths));
                break;
            }
            if self.viols.len() >= self.cfg.max_viol || self.viol_paths > self.cfg.viol_paths {
                self.incomplete = Some("stopped after violations".into());
                break;
            }
            self.run_path(st);
        }
    }

    fn run_path(&mut self, mut st: State) {
        let end = loop {
            match self.step(&mut st) {
                Ok(()) => {
                    st.steps += 1;
                    if st.steps & 0xffff == 0 {
                        if st.steps > self.cfg.max_steps { break End::Steps; }
                        if self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                            self.incomplete = Some(format!("time limit {} s, {} states left", self.cfg.max_secs, self.work.len() + 1));
                            self.stats.instrs += st.steps;
                            return;
                        }
                    }
                }
                Err(Ctl::End(e)) => break e,
                Err(Ctl::Split(e, vals)) => {
                    let w = self.ar.w(e);
                    if self.cfg.verbose { *self.prof.entry((st.cur.func.id, st.cur.pc)).or_insert(0) += vals.len() as u64; }
                    for &y in &vals[1..] {
                        let k = self.ar.konst(y as u128, w);
                        let q = self.ar.bin(Op::Eq, e, k);
                        if let Some(mut o) = self.other(&st, q) {
                            Rc::make_mut(&mut o.fixed).insert(e, y);
                            self.work.push(o);
                        }
                    }
                    let k = self.ar.konst(vals[0] as u128, w);
                    let q = self.ar.bin(Op::Eq, e, k);
                    self.add_cons(&mut st, q);
                    Rc::make_mut(&mut st.fixed).insert(e, vals[0]);
                }
            }
        };
        self.finish(st, end);
    }

    fn inputs_of(&self, st: &State) -> Vec<(u8, u128)> {
        st.inputs.iter().enumerate().map(|(i, k)| (var_width(*k), st.model[i])).collect()
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.cur.func.name.clone()];
        for f in st.frames.iter().rev() { v.push(f.func.name.clone()); }
        v
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        self.viol_paths += if kind == "hang" { 100 } else { 1 };
        let key = format!("{}:{}", kind, msg);
        if !self.viol_seen.insert(key) { return; }
        self.viols.push(Violation { kind: kind.into(), msg, inputs: self.inputs_of(st), stack: self.stack_of(st) });
    }

    fn finish(&mut self, st: State, end: End) {
        self.stats.instrs += st.steps; // counts shared prefixes once per path
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len() as u64);
        match end {
            End::Assume => { self.stats.assumed_out += 1; return; }
            End::Return => {
                self.stats.paths += 1;
                self.stats.ok_paths += 1;
                for r in st.reach.iter() { if !self.reached.contains(r) { self.reached.insert(r.clone()); } }
                // reservoir sample of the finished paths
                let slot = if self.cases.len() < self.cfg.case_limit { Some(self.cases.len()) } else {
                    self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                    let k = (self.rng >> 11) % self.stats.ok_paths;
                    if (k as usize) < self.cfg.case_limit { Some(k as usize) } else { None }
                };
                if let Some(slot) = slot {
                    let mut out = vec![];
                    for o in st.obs.iter() {
                        out.push(match o {
                            Obs::Val(v) => match v { V::E(e) => format!("{}", self.eval_model(&st, *e)), v => format!("{}", Self::cint(v).unwrap_or(0)) },
                            Obs::Bytes(b) => {
                                let mut s = String::from("x");
                                for (c, e) in b {
                                    let v = if *e == 0 { *c } else { self.eval_model(&st, *e) as u8 };
                                    s.push_str(&format!("{:02x}", v));
                                }
                                s
                            }
                        });
                    }
                    let inp = self.inputs_of(&st);
                    let case = (inp, out, st.reach.iter().cloned().collect());
                    if slot < self.cases.len() { self.cases[slot] = case; } else { self.cases.push(case); }
                }
            }
            End::Panic(m) => { self.stats.paths += 1; self.violation(&st, "panic", m); }
            End::Mem(m) => { self.stats.paths += 1; self.violation(&st, "memory", m); }
            End::Fail(m) => { self.stats.paths += 1; self.violation(&st, "assert", m); }
            End::Steps => { self.stats.paths += 1; let m = format!("no termination within {} steps", self.cfg.max_steps); self.violation(&st, "hang", m); }
            End::Unsupported(m) => {
                self.stats.paths += 1;
                if self.incomplete.is_none() { self.incomplete = Some(format!("{}: {} in {:?}", UNSUP, m, self.stack_of(&st).iter().take(6).collect::<Vec<_>>())); }
            }
        }
    }

    #[inline]
    fn set(st: &mut State, d: u32, v: V) { if unsafe { TRACE } { eprintln!("      r{} <- {:?}", d, v); } st.cur.regs[d as usize] = v; }

    fn jump(st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = Self::val(st, &e.moves[0].1); st.cur.regs[e.moves[0].0 as usize] = v; }
            _ => {
                let vals: Vec<V> = e.moves.iter().map(|(_, o)| Self::val(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) { st.cur.regs[*d as usize] = v; }
            }
        }
        st.cur.pc = e.target;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let func = st.cur.func;
        let ins = &func.code[st.cur.pc as usize];
        if self.cfg.trace && st.steps >= self.cfg.trace_from { unsafe { TRACE = true; } eprintln!("{} {}:{} {:?}", st.frames.len(), func.name, st.cur.pc, ins); }
        match ins {
            I::Bin(op, w, d, a, b) => {
                let (x, y) = (Self::val(st, a), Self::val(st, b));
                let r = if let (V::C(x), V::C(y)) = (&x, &y) { bin_c(*op, *w, *x, *y) } else { None };
                let r = match r {
                    Some(r) => V::C(r),
                    None => {
                        let (ex, ey) = (self.to_e(&x, *w), self.to_e(&y, *w));
                        let o = eop(*op);
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && self.ar.cv(ey) == Some(0) {
                            return Err(Ctl::End(End::Mem("division by zero".into())));
                        }
                        let e = self.ar.bin(o, ex, ey);
                        self.from_e(e)
                    }
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Icmp(p, w, d, a, b) => {
                let (x, y) = (Self::val(st, a), Self::val(st, b));
                let r = if let (V::C(x), V::C(y)) = (&x, &y) {
                    V::C(cmp_c(*p, *w, *x, *y) as u64)
                } else {
                    let (ex, ey) = (self.to_e(&x, *w), self.to_e(&y, *w));
                    let e = self.icmp_e(*p, ex, ey);
                    self.from_e(e)
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Select(d, c, a, b, bits) => {
                let cv = Self::val(st, c);
                let r = match cv {
                    V::C(x) => if x & 1 != 0 { Self::val(st, a) } else { Self::val(st, b) },
                    V::E(e) => {
                        let (x, y) = (Self::val(st, a), Self::val(st, b));
                        // lengths, indices and pointers: both sides are followed, so that they stay concrete
                        let fork = *bits == 64 && !matches!((&x, &y), (V::C(p), V::C(q)) if p == q) && !matches!((&x, &y), (V::E(p), V::E(q)) if p == q);
                        if *bits <= 64 && *bits != 0 && !fork {
                            let (ex, ey) = (self.to_e(&x, *bits), self.to_e(&y, *bits));
                            let r = self.ar.ite(e, ex, ey);
                            self.from_e(r)
                        } else if *bits == 128 {
                            let (ex, ey) = (self.to_e(&x, 128), self.to_e(&y, 128));
                            let r = self.ar.ite(e, ex, ey);
                            self.from_e(r)
                        } else {
                            let same = matches!((&x, &y), (V::C(p), V::C(q)) if p == q);
                            if same { x } else {
                                let d = *d;
                                let (xx, yy) = (x.clone(), y.clone());
                                let side = self.branch(st, e, move |_, o, t| { Self::set(o, d, if t { xx } else { yy }); o.cur.pc += 1; });
                                if side { x } else { y }
                            }
                        }
                    }
                    _ => return Err(Ctl::End(End::Unsupported("select".into()))),
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Cast(k, f, t, d, a) => {
                let mut x = Self::val(st, a);
                // a number made of a condition is most likely a length or an index: both sides are followed, so that it stays concrete
                if let (true, &V::E(e)) = (*t == 64 && matches!(k, CastK::ZExt | CastK::SExt), &x) {
                    if let Some((c, vt, vf)) = self.ar.bit_of(e) {
                        let (k, f, t, d) = (*k, *f, *t, *d);
                        let ext = move |v: u128| if let CastK::SExt = k { V::C((sext(v, f) as u128 & mask(t)) as u64) } else { V::C(v as u64) };
                        let side = self.branch(st, c, move |_, o, s| { Self::set(o, d, ext(if s { vt } else { vf })); o.cur.pc += 1; });
                        x = V::C(if side { vt } else { vf } as u64);
                    }
                }
                let r = match (k, &x) {
                    (CastK::Same, _) => x,
                    (CastK::Trunc, V::C(c)) => V::C(c & mask(*t) as u64),
                    (CastK::ZExt, V::C(_)) => x,
                    (CastK::SExt, V::C(c)) => mkc(sext(*c as u128, *f) as u128 & mask(*t)),
                    (CastK::Trunc, V::W(c)) => mkc(**c & mask(*t)),
                    (CastK::ZExt, V::W(_)) => x,
                    (CastK::SExt, V::W(c)) => mkc(sext(**c, *f) as u128 & mask(*t)),
                    (k, V::E(e)) => {
                        let r = match k { CastK::Trunc => self.ar.extract(*e, *t - 1, 0), CastK::ZExt => self.ar.zext(*e, *t), _ => self.ar.sext(*e, *t) };
                        self.from_e(r)
                    }
                    _ => return Err(Ctl::End(End::Unsupported("cast".into()))),
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Load(d, ty, p) => {
                let a = Self::val(st, p);
                let r = match a {
                    V::C(a) => self.load_ty(st, a, ty)?,
                    V::E(e) => self.load_symaddr(st, ty, e)?,
                    _ => return Err(Ctl::End(End::Unsupported("load addr".into()))),
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Store(ty, v, p) => {
                let a = Self::val(st, p);
                let a = self.conc(st, &a)?;
                let v = Self::val(st, v);
                self.store_ty(st, a, ty, &v)?;
                st.cur.pc += 1;
            }
            I::Gep(d, base, off, terms) => {
                let b = Self::val(st, base);
                let mut sym: Option<E> = None;
                let mut acc = match &b { V::C(c) => c.wrapping_add(*off as u64), V::E(e) => { sym = Some(*e); *off as u64 } _ => return Err(Ctl::End(End::Unsupported("gep".into()))) };
                for (o, sz, w) in terms {
                    match Self::val(st, o) {
                        V::C(c) => acc = acc.wrapping_add((sext(c as u128, *w) as i64).wrapping_mul(*sz as i64) as u64),
                        V::E(e) => {
                            let x = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            let k = self.ar.konst(*sz as u128, 64);
                            let y = self.ar.bin(Op::Mul, x, k);
                            sym = Some(match sym { None => y, Some(s) => self.ar.bin(Op::Add, s, y) });
                        }
                        _ => return Err(Ctl::End(End::Unsupported("gep idx".into()))),
                    }
                }
                let r = match sym {
                    None => V::C(acc),
                    Some(s) => { let k = self.ar.konst(acc as u128, 64); let e = self.ar.bin(Op::Add, s, k); self.from_e(e) }
                };
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::Alloca(d, n, sz) => {
                let n = Self::val(st, n);
                let n = self.conc(st, &n)?;
                let id = st.mem.alloc((n * sz) as usize, 0, false);
                st.cur.allocas.push(id);
                Self::set(st, *d, V::C((id as u64) << 32));
                st.cur.pc += 1;
            }
            I::Br(e) => Self::jump(st, e),
            I::CondBr(c, a, b) => {
                let v = Self::val(st, c);
                let side = match v {
                    V::C(c) => c & 1 != 0,
                    V::E(e) => self.branch(st, e, move |_, o, t| Self::jump(o, if t { a } else { b })),
                    _ => return Err(Ctl::End(End::Unsupported("br".into()))),
                };
                Self::jump(st, if side { a } else { b });
            }
            I::Switch(w, v, cases, def) => {
                let x = Self::val(st, v);
                match x {
                    V::C(c) => {
                        let e = cases.iter().find(|(k, _)| *k == c as u128).map(|x| &x.1).unwrap_or(def);
                        Self::jump(st, e);
                    }
                    V::E(e) => {
                        // group cases by target
                        self.stats.branches += 1;
                        let cur = self.eval_model(st, e);
                        let mut groups: Vec<(&Edge, E, bool)> = vec![];
                        let mut none = T;
                        for (k, ed) in cases {
                            let kk = self.ar.konst(*k, *w);
                            let q = self.ar.bin(Op::Eq, e, kk);
                            let nq = self.ar.not(q);
                            none = self.ar.bin(Op::And, none, nq);
                            match groups.iter_mut().find(|g| g.0.target == ed.target && ed.moves.is_empty() && g.0.moves.is_empty()) {
                                Some(g) => { g.1 = self.ar.bin(Op::Or, g.1, q); g.2 |= cur == *k; }
                                None => groups.push((ed, q, cur == *k)),
                            }
                        }
                        let anyc = groups.iter().any(|g| g.2);
                        groups.push((def, none, !anyc));
                        let mut mine = None;
                        let mut n_other = 0;
                        for (ed, q, is) in groups {
                            if is { mine = Some((ed, q)); continue; }
                            if let Some(mut o) = self.other(st, q) {
                                Self::jump(&mut o, ed);
                                self.work.push(o);
                                n_other += 1;
                            }
                        }
                        let (ed, q) = mine.unwrap();
                        if n_other > 0 { self.add_cons(st, q); st.forks += 1; }
                        Self::jump(st, ed);
                    }
                    V::W(c) => {
                        let e = cases.iter().find(|(k, _)| *k == *c).map(|x| &x.1).unwrap_or(def);
                        Self::jump(st, e);
                    }
                    _ => return Err(Ctl::End(End::Unsupported("switch".into()))),
                }
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| Self::val(st, o));
                self.do_ret(st, v)?;
            }
            I::Unreachable => return Err(Ctl::End(End::Mem(format!("reached unreachable in {}", func.name)))),
            I::Extract(d, a, ix, _) => {
                let mut v = Self::val(st, a);
                for i in ix { v = match v { V::A(r) => r[*i as usize].clone(), _ => return Err(Ctl::End(End::Unsupported("extractvalue".into()))) }; }
                Self::set(st, *d, v);
                st.cur.pc += 1;
            }
            I::Insert(d, a, x, ix, ty) => {
                let base = Self::val(st, a);
                let x = Self::val(st, x);
                let r = insert_v(base, ty, ix, x);
                Self::set(st, *d, r);
                st.cur.pc += 1;
            }
            I::AtomicRmw(op, w, d, p, v) => {
                let a = Self::val(st, p);
                let a = self.conc(st, &a)?;
                let ty = Ty::Int(*w as u16);
                let old = self.load_ty(st, a, &ty)?;
                let v = Self::val(st, v);
                let (eo, ev) = (self.to_e(&old, *w), self.to_e(&v, *w));
                let e = match op {
                    Rmw::Xchg => ev,
                    Rmw::Add => self.ar.bin(Op::Add, eo, ev),
                    Rmw::Sub => self.ar.bin(Op::Sub, eo, ev),
                    Rmw::And => self.ar.bin(Op::And, eo, ev),
                    Rmw::Or => self.ar.bin(Op::Or, eo, ev),
                    Rmw::Xor => self.ar.bin(Op::Xor, eo, ev),
                    Rmw::Nand => { let x = self.ar.bin(Op::And, eo, ev); let m = self.ar.konst(!0, *w); self.ar.bin(Op::Xor, x, m) }
                    Rmw::UMax => { let c = self.ar.bin(Op::Ult, eo, ev); self.ar.ite(c, ev, eo) }
                    Rmw::UMin => { let c = self.ar.bin(Op::Ult, eo, ev); self.ar.ite(c, eo, ev) }
                    Rmw::Max => { let c = self.ar.bin(Op::Slt, eo, ev); self.ar.ite(c, ev, eo) }
                    Rmw::Min => { let c = self.ar.bin(Op::Slt, eo, ev); self.ar.ite(c, eo, ev) }
                };
                let nv = self.from_e(e);
                self.store_ty(st, a, &ty, &nv)?;
                Self::set(st, *d, old);
                st.cur.pc += 1;
            }
            I::CmpXchg(w, d, p, x, y) => {
                let a = Self::val(st, p);
                let a = self.conc(st, &a)?;
                let ty = Ty::Int(*w as u16);
                let old = self.load_ty(st, a, &ty)?;
                let x = Self::val(st, x);
                let o = self.conc(st, &old)?;
                let xc = self.conc(st, &x)?;
                let ok = o == xc;
                if ok { let y = Self::val(st, y); self.store_ty(st, a, &ty, &y)?; }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                st.cur.pc += 1;
            }
            I::Nop => st.cur.pc += 1,
            I::Unsupported(s) => return Err(Ctl::End(End::Unsupported(s.clone()))),
            I::Call(d, callee, args, rbits) => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Dyn(o) => {
                        let v = Self::val(st, o);
                        let a = self.conc(st, &v)?;
                        match self.m.func_of_addr(a) {
                            Some(f) => f,
                            None => return Err(Ctl::End(End::Mem(format!("call of non-function address {:#x} in {}", a, func.name)))),
                        }
                    }
                };
                if self.bi[f as usize] != Bi::None {
                    let b = self.bi[f as usize];
                    return self.builtin(st, b, f, *d, args, *rbits);
                }
                let callee = match self.m.fns[f as usize].compiled {
                    Some(c) => c,
                    None => match self.m.compile(f) {
                        Some(c) => c,
                        None => return Err(Ctl::End(End::Unsupported(format!("external function {}", self.m.fns[f as usize].name)))),
                    },
                };
                self.funcs[f as usize] += 1;
                if st.frames.len() > 900 { return Err(Ctl::End(End::Mem("stack overflow".into()))); }
                let mut regs = vec![V::C(0); callee.nregs as usize];
                for (i, (o, _)) in args.iter().enumerate() {
                    if i < callee.params.len() { regs[callee.params[i] as usize] = Self::val(st, o); }
                }
                let nf = Frame { func: callee, pc: 0, regs, allocas: vec![], ret_dst: *d };
                st.cur.pc += 1;
                let old = std::mem::replace(&mut st.cur, nf);
                st.frames.push(Rc::new(old));
            }
        }
        Ok(())
    }

    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        for id in std::mem::take(&mut st.cur.allocas) { st.mem.free_obj(id); }
        let dst = st.cur.ret_dst;
        match st.frames.pop() {
            None => return Err(Ctl::End(End::Return)),
            Some(f) => {
                st.cur = match Rc::try_unwrap(f) { Ok(f) => f, Err(rc) => (*rc).clone() };
                if let (Some(d), Some(v)) = (dst, v) { Self::set(st, d, v); }
            }
        }
        Ok(())
    }

    fn icmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        }
    }

    fn new_input(&mut self, st: &mut State, w: u8) -> (u32, E) {
        let idx = st.inputs.len() as u32;
        let key = var_key(idx, w);
        let e = self.ar.var(idx, w);
        Rc::make_mut(&mut st.inputs).push(key);
        Rc::make_mut(&mut st.model).push(0);
        (key, e)
    }

    fn builtin(&mut self, st: &mut State, b: Bi, f: u32, d: Option<u32>, args: &[(Opd, u8)], rbits: u8) -> R<()> {
        macro_rules! arg { ($i:expr) => { Self::val(st, &args[$i].0) } }
        macro_rules! carg { ($i:expr) => { { let v = Self::val(st, &args[$i].0); self.conc(st, &v)? } } }
        let mut ret: Option<V> = None;
        let w = if args.is_empty() { 0 } else { args[0].1 };
        match b {
            Bi::None => unreachable!(),
            Bi::Nop => {}
            Bi::NopZero => ret = Some(V::C(0)),
            Bi::Alloc | Bi::AllocZeroed | Bi::Malloc => {
                let n = carg!(0);
                if n > 1 << 28 { return Err(Ctl::End(End::Mem(format!("allocation of {} bytes", n)))); }
                let id = st.mem.alloc(n as usize, if b == Bi::AllocZeroed { 0 } else { 0xAA }, true);
                ret = Some(V::C((id as u64) << 32));
            }
            Bi::Calloc => {
                let n = carg!(0) * carg!(1);
                let id = st.mem.alloc(n as usize, 0, true);
                ret = Some(V::C((id as u64) << 32));
            }
            Bi::PosixMemalign => {
                let p = carg!(0);
                let n = carg!(2);
                let id = st.mem.alloc(n as usize, 0xAA, true);
                self.store_bytes(st, p, &V::C((id as u64) << 32), 8)?;
                ret = Some(V::C(0));
            }
            Bi::Dealloc | Bi::Free => {
                let p = carg!(0);
                if p != 0 || b == Bi::Dealloc {
                    let id = (p >> 32) as u32;
                    match st.mem.get(id) {
                        Some(o) if o.heap && p & 0xffffffff == 0 => {}
                        _ => return Err(Ctl::End(End::Mem(format!("free of invalid pointer {:#x}", p)))),
                    }
                    st.mem.free_obj(id);
                }
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = carg!(0);
                let n = if b == Bi::Realloc { carg!(3) } else { carg!(1) };
                if n > 1 << 28 { return Err(Ctl::End(End::Mem(format!("allocation of {} bytes", n)))); }
                let nid = st.mem.alloc(n as usize, 0xAA, true);
                let na = (nid as u64) << 32;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    let old = match st.mem.get(id) { Some(o) if o.heap => o.data.len() as u64, _ => return Err(Ctl::End(End::Mem("realloc of invalid pointer".into()))) };
                    self.copy_mem(st, na, p, old.min(n))?;
                    st.mem.free_obj(id);
                }
                ret = Some(V::C(na));
            }
            Bi::Memcmp => {
                let (p, q, n) = (carg!(0), carg!(1), carg!(2));
                let a = self.read_mem(st, p, n)?;
                let c = self.read_mem(st, q, n)?;
                let is_bcmp = self.m.fns[f as usize].name == "bcmp";
                let conc = a.iter().chain(c.iter()).all(|x| x.1 == 0);
                if conc {
                    let x: Vec<u8> = a.iter().map(|x| x.0).collect();
                    let y: Vec<u8> = c.iter().map(|x| x.0).collect();
                    ret = Some(V::C(match x.cmp(&y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
                } else {
                    // does the caller only test for zero? encode both forms exactly: bcmp -> {0,1}; memcmp -> first difference
                    let mut eqs = vec![];
                    for i in 0..a.len() {
                        let x = if a[i].1 != 0 { a[i].1 } else { self.ar.konst(a[i].0 as u128, 8) };
                        let y = if c[i].1 != 0 { c[i].1 } else { self.ar.konst(c[i].0 as u128, 8) };
                        eqs.push((x, y, self.ar.bin(Op::Eq, x, y)));
                    }
                    let r = if is_bcmp {
                        let mut all = T;
                        for (_, _, e) in &eqs { all = self.ar.bin(Op::And, all, *e); if all == F { break; } }
                        let n = self.ar.not(all);
                        self.ar.zext(n, 32)
                    } else {
                        let mut r = self.ar.konst(0, 32);
                        let neg = self.ar.konst(0xffff_ffff, 32);
                        let one = self.ar.konst(1, 32);
                        for (x, y, e) in eqs.iter().rev() {
                            let lt = self.ar.bin(Op::Ult, *x, *y);
                            let s = self.ar.ite(lt, neg, one);
                            r = self.ar.ite(*e, r, s);
                        }
                        r
                    };
                    ret = Some(self.from_e(r));
                }
            }
            Bi::Errno => ret = Some(V::C(self.errno)),
            Bi::Dlsym => {
                let p = carg!(1);
                let mut name = String::new();
                let mut i = 0;
                loop {
                    match self.load_bytes(st, p + i, 1)? { V::C(0) => break, V::C(c) => name.push(c as u8 as char), _ => break }
                    i += 1;
                }
                ret = Some(V::C(match self.m.fn_by_name.get(&name) { Some(f) if self.m.fns[*f as usize].def.is_some() => ((*f + 1) as u64) << 32, _ => 0 }));
            }
            Bi::KeyCreate => {
                let p = carg!(0);
                let t = Rc::make_mut(&mut st.tls);
                t.push(0);
                let k = t.len() as u64;
                self.store_bytes(st, p, &V::C(k), 4)?;
                ret = Some(V::C(0));
            }
            Bi::KeyGet => { let k = carg!(0); ret = Some(V::C(st.tls.get(k as usize - 1).cloned().unwrap_or(0))); }
            Bi::KeySet => { let (k, v) = (carg!(0), carg!(1)); Rc::make_mut(&mut st.tls)[k as usize - 1] = v; ret = Some(V::C(0)); }
            Bi::PanicFmt | Bi::PanicBegin => {
                let msg = self.panic_msg(st, f, args);
                return Err(Ctl::End(End::Panic(msg)));
            }
            Bi::AllocErr => return Err(Ctl::End(End::Panic("allocation failure".into()))),
            Bi::Abort => return Err(Ctl::End(End::Panic("abort".into()))),
            Bi::Trap => return Err(Ctl::End(End::Panic(format!("trap in {}", st.cur.func.name)))),
            Bi::SymU8 | Bi::SymU16 | Bi::SymU32 | Bi::SymU64 => {
                let w = match b { Bi::SymU8 => 8, Bi::SymU16 => 16, Bi::SymU32 => 32, _ => 64 };
                let (_, e) = self.new_input(st, w);
                ret = Some(V::E(e));
            }
            Bi::Choose => {
                let n = carg!(0);
                if n == 0 || n > 256 { return Err(Ctl::End(End::Unsupported("choose range".into()))); }
                let (_, e) = self.new_input(st, 8);
                // every value is feasible: the variable is fresh
                for v in (1..n).rev() {
                    let mut o = st.clone();
                    let k = self.ar.konst(v as u128, 8);
                    let q = self.ar.bin(Op::Eq, e, k);
                    let i = o.inputs.len() - 1;
                    Rc::make_mut(&mut o.model)[i] = v as u128;
                    self.add_cons(&mut o, q);
                    if let Some(d) = d { Self::set(&mut o, d, V::C(v)); }
                    o.cur.pc += 1;
                    o.forks += 1;
                    self.stats.forks += 1;
                    self.work.push(o);
                }
                let k = self.ar.konst(0, 8);
                let q = self.ar.bin(Op::Eq, e, k);
                self.add_cons(st, q);
                ret = Some(V::C(0));
            }
            Bi::Assume => {
                match arg!(0) {
                    V::C(c) => if c & 1 == 0 { return Err(Ctl::End(End::Assume)); },
                    V::E(e) => {
                        let e = if self.ar.w(e) != 1 { self.ar.extract(e, 0, 0) } else { e };
                        if self.eval_model(st, e) != 0 { self.add_cons(st, e); }
                        else {
                            match self.other(st, e) { Some(o) => *st = o, None => return Err(Ctl::End(End::Assume)) }
                        }
                    }
                    _ => return Err(Ctl::End(End::Unsupported("assume".into()))),
                }
            }
            Bi::Assert => {
                self.stats.asserts += 1;
                let (p, n) = (carg!(1), carg!(2));
                match arg!(0) {
                    V::C(c) => if c & 1 == 0 { let m = self.read_str(st, p, n); return Err(Ctl::End(End::Fail(m))); },
                    V::E(e) => {
                        self.stats.asserts_sym += 1;
                        let e = if self.ar.w(e) != 1 { self.ar.extract(e, 0, 0) } else { e };
                        let ne = self.ar.not(e);
                        if let Some(o) = self.other(st, ne) {
                            let m = self.read_str(st, p, n);
                            self.violation(&o, "assert", m);
                            match self.other(st, e) { Some(o) => *st = o, None => return Err(Ctl::End(End::Assume)) }
                        }
                    }
                    _ => return Err(Ctl::End(End::Unsupported("assert".into()))),
                }
            }
            Bi::Observe => { let v = arg!(0); Rc::make_mut(&mut st.obs).push(Obs::Val(v)); }
            Bi::ObserveBytes => {
                let (p, n) = (carg!(0), carg!(1));
                let b = self.read_mem(st, p, n)?;
                Rc::make_mut(&mut st.obs).push(Obs::Bytes(b));
            }
            Bi::Reach => { let (p, n) = (carg!(0), carg!(1)); let s = self.read_str(st, p, n); Rc::make_mut(&mut st.reach).insert(s); }
            Bi::Note => { let (p, n) = (carg!(0), carg!(1)); let s = self.read_str(st, p, n); let v = carg!(2); eprintln!("note {} {:#x} [{}]", s, v, self.stats.paths); }
            Bi::Param => { let i = carg!(0); ret = Some(V::C(self.cfg.params.get(i as usize).cloned().unwrap_or(0))); }
            Bi::Fail => { let (p, n) = (carg!(0), carg!(1)); let m = self.read_str(st, p, n); return Err(Ctl::End(End::Fail(m))); }
            Bi::IsSym => ret = Some(V::C(matches!(arg!(0), V::E(_)) as u64)),
            Bi::Concretize => { let c = carg!(0); ret = Some(V::C(c)); }
            Bi::Memcpy => { let (p, q, n) = (carg!(0), carg!(1), carg!(2)); self.copy_mem(st, p, q, n)?; ret = Some(V::C(p)); }
            Bi::Memset => {
                let (p, n) = (carg!(0), carg!(2));
                let v = arg!(1);
                if n > 0 {
                    let id = (p >> 32) as u32;
                    let off = (p & 0xffff_ffff) as usize;
                    match st.mem.get(id) { Some(o) if off + n as usize <= o.data.len() && !o.ro => {} _ => return Err(self.oob(st, "memset", p, n)) }
                    let v = match v { V::E(e) if self.ar.w(e) > 8 => { let x = self.ar.extract(e, 7, 0); self.from_e(x) } v => v };
                    let o = st.mem.get_mut(id).unwrap();
                    match v {
                        V::C(c) => {
                            for x in &mut o.data[off..off + n as usize] { *x = c as u8; }
                            if !o.sym.is_empty() { for x in &mut o.sym[off..off + n as usize] { *x = 0; } }
                        }
                        V::E(e) => {
                            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                            for x in &mut o.sym[off..off + n as usize] { *x = e; }
                        }
                        _ => {}
                    }
                }
                ret = Some(V::C(p));
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let (x, y) = (arg!(0), arg!(1));
                let (r, o) = if let (Some(a), Some(c)) = (Self::cint(&x), Self::cint(&y)) {
                    let m = mask(w);
                    let (sa, sc) = (sext(a, w), sext(c, w));
                    let (r, o) = match b {
                        Bi::UAddO => { let (r, o) = a.overflowing_add(c); (r, o || r & !m != 0) }
                        Bi::USubO => (a.wrapping_sub(c), a < c),
                        Bi::UMulO => { let (r, o) = a.overflowing_mul(c); (r, o || r & !m != 0) }
                        Bi::SAddO => { let (r, o) = sa.overflowing_add(sc); (r as u128, o || sext(r as u128 & m, w) != r) }
                        Bi::SSubO => { let (r, o) = sa.overflowing_sub(sc); (r as u128, o || sext(r as u128 & m, w) != r) }
                        _ => { let (r, o) = sa.overflowing_mul(sc); (r as u128, o || sext(r as u128 & m, w) != r) }
                    };
                    (mkc(r & m), V::C(o as u64))
                } else {
                    let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                    let (r, o) = match b {
                        Bi::UAddO => { let r = self.ar.bin(Op::Add, ex, ey); (r, self.ar.bin(Op::Ult, r, ex)) }
                        Bi::USubO => (self.ar.bin(Op::Sub, ex, ey), self.ar.bin(Op::Ult, ex, ey)),
                        Bi::UMulO if w <= 64 => {
                            let (zx, zy) = (self.ar.zext(ex, w * 2), self.ar.zext(ey, w * 2));
                            let p = self.ar.bin(Op::Mul, zx, zy);
                            let hi = self.ar.extract(p, w * 2 - 1, w);
                            let z = self.ar.konst(0, w);
                            let e = self.ar.bin(Op::Eq, hi, z);
                            (self.ar.extract(p, w - 1, 0), self.ar.not(e))
                        }
                        Bi::SAddO | Bi::SSubO | Bi::SMulO if w < 64 || b != Bi::SMulO => {
                            let ww = if b == Bi::SMulO { w * 2 } else { w + 1 };
                            let (sx, sy) = (self.ar.sext(ex, ww), self.ar.sext(ey, ww));
                            let op = match b { Bi::SAddO => Op::Add, Bi::SSubO => Op::Sub, _ => Op::Mul };
                            let p = self.ar.bin(op, sx, sy);
                            let lo = self.ar.extract(p, w - 1, 0);
                            let back = self.ar.sext(lo, ww);
                            let e = self.ar.bin(Op::Eq, back, p);
                            (lo, self.ar.not(e))
                        }
                        _ => return Err(Ctl::End(End::Unsupported("overflow op".into()))),
                    };
                    (self.from_e(r), self.from_e(o))
                };
                ret = Some(V::A(Rc::new(vec![r, o])));
            }
            Bi::UAddSat | Bi::USubSat | Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax | Bi::SAddSat | Bi::SSubSat => {
                let (x, y) = (arg!(0), arg!(1));
                let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                // as for `select`: the other side executes this again with the condition known
                macro_rules! pick { ($c:expr, $a:expr, $b:expr) => { {
                    let (c, p, q) = ($c, $a, $b);
                    if w == 64 && self.ar.cv(c).is_none() && p != q { if self.branch(st, c, |_, _, _| ()) { p } else { q } } else { self.ar.ite(c, p, q) }
                } } }
                let e = match b {
                    Bi::UAddSat => { let r = self.ar.bin(Op::Add, ex, ey); let o = self.ar.bin(Op::Ult, r, ex); let m = self.ar.konst(!0, w); pick!(o, m, r) }
                    Bi::USubSat => { let r = self.ar.bin(Op::Sub, ex, ey); let o = self.ar.bin(Op::Ult, ex, ey); let z = self.ar.konst(0, w); pick!(o, z, r) }
                    Bi::UMin => { let c = self.ar.bin(Op::Ult, ex, ey); pick!(c, ex, ey) }
                    Bi::UMax => { let c = self.ar.bin(Op::Ult, ex, ey); pick!(c, ey, ex) }
                    Bi::SMin => { let c = self.ar.bin(Op::Slt, ex, ey); pick!(c, ex, ey) }
                    Bi::SMax => { let c = self.ar.bin(Op::Slt, ex, ey); pick!(c, ey, ex) }
                    _ => return Err(Ctl::End(End::Unsupported("saturating op".into()))),
                };
                ret = Some(self.from_e(e));
            }
            Bi::Ctpop | Bi::Ctlz | Bi::Cttz | Bi::Bitrev | Bi::Abs => {
                let x = arg!(0);
                let g = move |v: u128| -> u128 {
                    match b {
                        Bi::Ctpop => v.count_ones() as u128,
                        Bi::Ctlz => (v.leading_zeros() as u128) - (128 - w as u128),
                        Bi::Cttz => if v == 0 { w as u128 } else { v.trailing_zeros() as u128 },
                        Bi::Bitrev => v.reverse_bits() >> (128 - w as u32),
                        _ => (sext(v, w).wrapping_abs() as u128) & mask(w),
                    }
                };
                ret = Some(match x {
                    V::E(e) => match self.ar.single8(e) {
                        Some(k) => {
                            let vals: Vec<u128> = (0..256u128).map(|i| g(self.ar.eval(e, &|_| i))).collect();
                            let v = self.ar.var_by_key(k);
                            let t = self.ar.table(v, vals, w);
                            self.from_e(t)
                        }
                        None => { let c = carg!(0); mkc(g(c as u128)) }
                    },
                    v => mkc(g(Self::cint(&v).unwrap())),
                });
            }
            Bi::Bswap => {
                let x = arg!(0);
                let e = self.to_e(&x, w);
                let n = w / 8;
                let mut r: Option<E> = None;
                for i in 0..n { let p = self.ar.extract(e, i * 8 + 7, i * 8); r = Some(match r { None => p, Some(h) => self.ar.concat(h, p) }); }
                ret = Some(self.from_e(r.unwrap()));
            }
            Bi::Fshl | Bi::Fshr => {
                let (x, y) = (arg!(0), arg!(1));
                let s = (carg!(2) % w as u64) as u128;
                let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                let (ls, rs) = if b == Bi::Fshl { (s, w as u128 - s) } else { (w as u128 - s, s) };
                let kl = self.ar.konst(ls, w);
                let kr = self.ar.konst(rs, w);
                let e = if s == 0 { if b == Bi::Fshl { ex } else { ey } } else {
                    let l = self.ar.bin(Op::Shl, ex, kl);
                    let r = self.ar.bin(Op::LShr, ey, kr);
                    self.ar.bin(Op::Or, l, r)
                };
                ret = Some(self.from_e(e));
            }
            Bi::UCmp | Bi::SCmp => {
                let (x, y) = (arg!(0), arg!(1));
                let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                let lt = self.ar.bin(if b == Bi::UCmp { Op::Ult } else { Op::Slt }, ex, ey);
                let eq = self.ar.bin(Op::Eq, ex, ey);
                let (m, z, o) = (self.ar.konst(!0, rbits), self.ar.konst(0, rbits), self.ar.konst(1, rbits));
                let i = self.ar.ite(eq, z, o);
                let e = self.ar.ite(lt, m, i);
                ret = Some(self.from_e(e));
            }
            Bi::LoadRel => {
return Err(Ctl::End(End::Unsupported("load.relative (build the IR with -Crelocation-model=static)".into())));
            }
            Bi::Tla | Bi::Expect => ret = Some(arg!(0)),
            Bi::PtrMask => { let (a, m) = (carg!(0), carg!(1)); ret = Some(V::C(a & m)); }
            Bi::Objsize => ret = Some(V::C(u64::MAX)),
            Bi::IsConst => ret = Some(V::C(0)),
            Bi::Unsup => return Err(Ctl::End(End::Unsupported(format!("call of {}", self.m.fns[f as usize].name)))),
        }
        if let (Some(d), Some(v)) = (d, ret) { Self::set(st, d, v); }
        st.cur.pc += 1;
        Ok(())
    }

    fn panic_msg(&mut self, st: &mut State, f: u32, args: &[(Opd, u8)]) -> String {
        let n = args.len();
        let vals: Vec<V> = args.iter().map(|a| Self::val(st, &a.0)).collect();
        let mut msg = String::new();
        if let V::C(loc) = vals[n - 1] {
            if let (Ok(V::C(p)), Ok(V::C(l)), Ok(V::C(line))) = (self.load_bytes(st, loc, 8), self.load_bytes(st, loc + 8, 8), self.load_bytes(st, loc + 16, 4)) {
                if l < 4096 { msg = format!("at {}:{}", self.read_str(st, p, l), line); }
            }
        }
        let fname = &self.m.fns[f as usize].name;
        if fname.contains("_fmt") && n >= 3 {
            if let (V::C(t), V::C(a)) = (&vals[0], &vals[1]) {
                if a & 1 == 1 && a >> 1 < 4096 { msg = format!("{} {}", self.read_str(st, *t, a >> 1), msg); }
            }
        }
        format!("panic {}", msg)
    }
}

fn cv_to_v(ty: &Ty, c: &Cv) -> V {
    match (ty, c) {
        (Ty::Struct(..), Cv::Zero | Cv::Undef) | (Ty::Array(..), Cv::Zero | Cv::Undef) => V::A(Rc::new((0..ty.nfields()).map(|i| cv_to_v(ty.field(i), &Cv::Zero)).collect())),
        (_, Cv::Agg(v)) => V::A(Rc::new(v.iter().enumerate().map(|(i, x)| cv_to_v(ty.field(i), x)).collect())),
        (_, Cv::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        (_, Cv::Int(v)) => mkc(*v),
        _ => V::C(0),
    }
}

fn insert_v(base: V, ty: &Ty, ix: &[u32], x: V) -> V {
    if ix.is_empty() { return x; }
    let mut a = match base {
        V::A(r) => match Rc::try_unwrap(r) { Ok(v) => v, Err(r) => (*r).clone() },
        _ => (0..ty.nfields()).map(|_| V::C(0)).collect(),
    };
    let i = ix[0] as usize;
    let inner = std::mem::replace(&mut a[i], V::C(0));
    a[i] = insert_v(inner, ty.field(if matches!(ty, Ty::Array(..)) { 0 } else { i }), &ix[1..], x);
    V::A(Rc::new(a))
}

#[inline]
pub fn mkc(v: u128) -> V { if v <= u64::MAX as u128 { V::C(v as u64) } else { V::W(Rc::new(v)) } }

fn eop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
    }
}

#[inline]
fn bin_c(op: BinOp, w: u8, x: u64, y: u64) -> Option<u64> {
    if w > 64 { return None; }
    let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
    Some(match op {
        BinOp::Add => x.wrapping_add(y) & m,
        BinOp::Sub => x.wrapping_sub(y) & m,
        BinOp::Mul => x.wrapping_mul(y) & m,
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
        BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
        BinOp::AShr => { let s = sext(x as u128, w) as i64; (if y >= w as u64 { if s < 0 { -1 } else { 0 } } else { s >> y }) as u64 & m }
        BinOp::UDiv => { if y == 0 { return None; } x / y }
        BinOp::URem => { if y == 0 { return None; } x % y }
        BinOp::SDiv => { if y == 0 { return None; } (sext(x as u128, w).wrapping_div(sext(y as u128, w))) as u64 & m }
        BinOp::SRem => { if y == 0 { return None; } (sext(x as u128, w).wrapping_rem(sext(y as u128, w))) as u64 & m }
    })
}

#[inline]
fn cmp_c(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => {
            let (a, b) = (sext(x as u128, w.min(64)) as i64, sext(y as u128, w.min(64)) as i64);
            match p { Pred::Slt => a < b, Pred::Sle => a <= b, Pred::Sgt => a > b, _ => a >= b }
        }
    }
}

fn classify(n: &str, defined: bool) -> Bi {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") || p("memmove") { Bi::Memcpy }
        else if p("memset") { Bi::Memset }
        else if p("lifetime") || p("assume") || p("experimental.noalias") || p("prefetch") || p("donothing") || p("x86.sse2.pause") || p("fake.use") || p("dbg") { Bi::Nop }
        else if p("uadd.with") { Bi::UAddO } else if p("usub.with") { Bi::USubO } else if p("umul.with") { Bi::UMulO }
        else if p("sadd.with") { Bi::SAddO } else if p("ssub.with") { Bi::SSubO } else if p("smul.with") { Bi::SMulO }
        else if p("uadd.sat") { Bi::UAddSat } else if p("usub.sat") { Bi::USubSat } else if p("sadd.sat") { Bi::SAddSat } else if p("ssub.sat") { Bi::SSubSat }
        else if p("umin") { Bi::UMin } else if p("umax") { Bi::UMax } else if p("smin") { Bi::SMin } else if p("smax") { Bi::SMax }
        else if p("ctpop") { Bi::Ctpop } else if p("ctlz") { Bi::Ctlz } else if p("cttz") { Bi::Cttz }
        else if p("bswap") { Bi::Bswap } else if p("bitreverse") { Bi::Bitrev } else if p("fshl") { Bi::Fshl } else if p("fshr") { Bi::Fshr }
        else if p("abs") { Bi::Abs } else if p("ucmp") { Bi::UCmp } else if p("scmp") { Bi::SCmp } else if p("load.relative") { Bi::LoadRel }
        else if p("threadlocal.address") { Bi::Tla } else if p("expect") || p("launder") || p("strip.invariant") || p("ssa.copy") { Bi::Expect }
        else if p("trap") || p("debugtrap") || p("ubsantrap") { Bi::Trap }
        else if p("ptrmask") { Bi::PtrMask } else if p("objectsize") { Bi::Objsize } else if p("is.constant") { Bi::IsConst }
        else { Bi::Unsup };
    }
    match n {
        "sx_u8" => return Bi::SymU8, "sx_u16" => return Bi::SymU16, "sx_u32" => return Bi::SymU32, "sx_u64" => return Bi::SymU64,
        "sx_choose" => return Bi::Choose, "sx_assume" => return Bi::Assume, "sx_assert" => return Bi::Assert, "sx_observe" => return Bi::Observe,
        "sx_observe_bytes" => return Bi::ObserveBytes, "sx_reach" => return Bi::Reach, "sx_param" => return Bi::Param, "sx_fail" => return Bi::Fail,
        "sx_is_sym" => return Bi::IsSym, "sx_concretize" => return Bi::Concretize, "sx_note" => return Bi::Note,
        "bcmp" | "memcmp" if !defined => return Bi::Memcmp,
        "memcpy" | "memmove" if !defined => return Bi::Memcpy,
        "memset" if !defined => return Bi::Memset,
        "malloc" => return Bi::Malloc, "calloc" => return Bi::Calloc, "free" => return Bi::Free, "realloc" => return Bi::CRealloc, "posix_memalign" => return Bi::PosixMemalign,
        "__errno_location" => return Bi::Errno, "dlsym" => return Bi::Dlsym,
        "pthread_key_create" => return Bi::KeyCreate, "pthread_getspecific" => return Bi::KeyGet, "pthread_setspecific" => return Bi::KeySet,
        "pthread_key_delete" | "__cxa_thread_atexit_impl" => return Bi::NopZero,
        "abort" | "exit" | "_exit" => return Bi::Abort,
        _ => {}
    }
    let has = |s: &str| n.contains(s);
    if has("___rustc") {
        if n.ends_with("___rust_alloc") { return Bi::Alloc; }
        if n.ends_with("___rust_alloc_zeroed") { return Bi::AllocZeroed; }
        if n.ends_with("___rust_dealloc") { return Bi::Dealloc; }
        if n.ends_with("___rust_realloc") { return Bi::Realloc; }
        if has("no_alloc_shim") { return Bi::Nop; }
        if has("rust_begin_unwind") || has("rust_panic") { return Bi::PanicBegin; }
        if has("alloc_error_handler") { return Bi::AllocErr; }
    }
    if has("4core9panicking9panic_fmt") || has("4core9panicking18panic_nounwind_fmt") { return Bi::PanicFmt; }
    if has("3std9panicking11begin_panic") && !has("begin_panic_") { return Bi::PanicBegin; }
    if has("5alloc18handle_alloc_error") { return Bi::AllocErr; }
    if has("rtabort") || has("3std7process5abort") { return Bi::Abort; }
    Bi::None
}
