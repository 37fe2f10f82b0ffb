//! Minimal FFI binding to libz3 and the expression translation.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_uint) {
    eprintln!("z3 error code {}", code);
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 {
    c: P,
    params: P,
    simple: bool,
    logic: P,
    bools: HashMap<E, P>,
    bvs: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32, simple: bool) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            Z3 { c, params, simple, logic, bools: HashMap::new(), bvs: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, max_secs: 0.0 }
        }
    }
    fn bvk(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as u32))
            } else {
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as u32 - 64));
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn to_bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bools.get(&e) { return *p; }
        let n = *ar.n(e);
        assert_eq!(n.w, 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as i32), Z3_mk_bool_sort(c)),
                Op::And | Op::Mul => { let a = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor | Op::Add | Op::Sub => {
                    let a = self.to_bool(ar, n.a);
                    if ar.cv(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.to_bool(ar, n.b); Z3_mk_xor(c, a, b) }
                }
                Op::Ite => { let (x, y, z) = (self.to_bool(ar, n.a), self.to_bool(ar, n.b), self.to_bool(ar, n.c)); Z3_mk_ite(c, x, y, z) }
                Op::Eq => {
                    if ar.w(n.a) == 1 { let (x, y) = (self.to_bool(ar, n.a), self.to_bool(ar, n.b)); Z3_mk_eq(c, x, y) }
                    else { let (x, y) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b)); Z3_mk_eq(c, x, y) }
                }
                Op::Ult => { let (x, y) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b)); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let (x, y) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b)); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let (x, y) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b)); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let (x, y) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b)); Z3_mk_bvsle(c, x, y) }
                Op::Table => {
                    // union of value ranges where the table is 1
                    let v = self.to_bv(ar, n.a);
                    let t = &ar.tables[n.k as usize];
                    let mut parts: Vec<P> = vec![];
                    let mut i = 0usize;
                    while i < 256 {
                        if t[i] != 0 {
                            let s = i;
                            while i < 256 && t[i] != 0 { i += 1; }
                            let lo = self.bvk(s as u128, 8);
                            let hi = self.bvk(i as u128 - 1, 8);
                            if s + 1 == i { parts.push(Z3_mk_eq(c, v, lo)); }
                            else { let a = [Z3_mk_bvule(c, lo, v), Z3_mk_bvule(c, v, hi)]; parts.push(Z3_mk_and(c, 2, a.as_ptr())); }
                        } else { i += 1; }
                    }
                    Z3_mk_or(c, parts.len() as u32, parts.as_ptr())
                }
                _ => { let x = self.to_bv(ar, e); Z3_mk_eq(c, x, self.bvk(1, 1)) }
            }
        };
        self.bools.insert(e, p);
        p
    }
    fn to_bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bvs.get(&e) { return *p; }
        let n = *ar.n(e);
        let c = self.c;
        let bool_like = n.w == 1 && !matches!(n.op, Op::Extract | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr);
        let p = unsafe {
            if bool_like {
                let b = self.to_bool(ar, e);
                Z3_mk_ite(c, b, self.bvk(1, 1), self.bvk(0, 1))
            } else {
                match n.op {
                    Op::Const => self.bvk(n.k, n.w),
                    Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as i32), Z3_mk_bv_sort(c, n.w as u32)),
                    Op::Extract => { let a = self.to_bv(ar, n.a); Z3_mk_extract(c, (n.k >> 8) as u8 as u32, n.k as u8 as u32, a) }
                    Op::ZExt => { let a = self.to_bv(ar, n.a); Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, a) }
                    Op::SExt => { let a = self.to_bv(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, a) }
                    Op::Ite => { let (x, y, z) = (self.to_bool(ar, n.a), self.to_bv(ar, n.b), self.to_bv(ar, n.c)); Z3_mk_ite(c, x, y, z) }
                    Op::Table => {
                        let v = self.to_bv(ar, n.a);
                        let t = ar.tables[n.k as usize].clone();
                        let mut r = self.bvk(t[255], n.w);
                        let mut i = 255usize;
                        while i > 0 {
                            if t[i - 1] != t[i] {
                                // values below i use t[i-1]
                                let cond = Z3_mk_bvult(c, v, self.bvk(i as u128, 8));
                                // build from the top: r currently covers >= i
                                let lower = self.bvk(t[i - 1], n.w);
                                r = Z3_mk_ite(c, cond, lower, r);
                                // nested lower ranges are added in front in later iterations
                            }
                            i -= 1;
                        }
                        r
                    }
                    op => {
                        let (a, b) = (self.to_bv(ar, n.a), self.to_bv(ar, n.b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => panic!("to_bv {:?}", op),
                        }
                    }
                }
            }
        };
        self.bvs.insert(e, p);
        p
    }
    /// Check the conjunction; on Sat return values of the wanted variables.
    pub fn check(&mut self, ar: &mut Arena, cons: &[E], want: &[u32]) -> (Res, Vec<(u32, u128)>) {
        let t0 = Instant::now();
        self.queries += 1;
        let wants: Vec<(u32, E)> = want.iter().map(|k| (*k, ar.var_by_key(*k))).collect();
        let (res, vals) = unsafe {
            let c = self.c;
            let s = if self.simple { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, self.logic) };
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for &e in cons {
                let p = self.to_bool(ar, e);
                Z3_solver_assert(c, s, p);
            }
            let r = Z3_solver_check(c, s);
            let mut vals = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    for (k, e) in wants {
                        let mut out: P = std::ptr::null_mut();
                        if var_width(k) == 1 {
                            let p = self.to_bool(ar, e);
                            Z3_model_eval(c, m, p, true, &mut out);
                            vals.push((k, (Z3_get_bool_value(c, out) == 1) as u128));
                        } else {
                            let p = self.to_bv(ar, e);
                            Z3_model_eval(c, m, p, true, &mut out);
                            let mut v = 0u64;
                            Z3_get_numeral_uint64(c, out, &mut v);
                            vals.push((k, v as u128));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            (res, vals)
        };
        match res { Res::Sat => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        let d = t0.elapsed().as_secs_f64();
        self.secs += d;
        if d > self.max_secs { self.max_secs = d; }
        (res, vals)
    }
}
