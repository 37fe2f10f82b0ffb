//! Native replay: runs one harness on recorded inputs against the compiled library.
//! usage: replay ENTRY "p,p,.." "w:v w:v .."     exit 0 ok, 101 panic, 102 assertion, 103 inputs exhausted, 104 assumption failed
use std::io::Write;
use std::os::raw::c_int;

static mut INPUTS: Vec<(u8, u64)> = Vec::new();
static mut POS: usize = 0;
static mut PARAMS: Vec<u64> = Vec::new();
static mut OUT: String = String::new();

extern "C" { fn syscall(n: i64, ...) -> i64; }

#[allow(static_mut_refs)]
fn finish(code: c_int) -> ! {
    unsafe {
        let b = OUT.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let n = syscall(1, 1 as c_int, b[p..].as_ptr(), b.len() - p);
            if n <= 0 { break; }
            p += n as usize;
        }
        syscall(231, code);
    }
    loop {}
}
#[allow(static_mut_refs)]
fn emit(s: String) { unsafe { OUT.push_str(&s); OUT.push('\n'); } }
#[allow(static_mut_refs)]
fn next(w: u8) -> u64 {
    unsafe {
        if POS >= INPUTS.len() { emit("status inputs-exhausted".into()); finish(103); }
        let (iw, v) = INPUTS[POS];
        POS += 1;
        if iw != w { emit("status input-width-mismatch".into()); finish(103); }
        v
    }
}
#[no_mangle] pub extern "C" fn sx_u8() -> u8 { next(8) as u8 }
#[no_mangle] pub extern "C" fn sx_u16() -> u16 { next(16) as u16 }
#[no_mangle] pub extern "C" fn sx_u32() -> u32 { next(32) as u32 }
#[no_mangle] pub extern "C" fn sx_u64() -> u64 { next(64) }
#[no_mangle] pub extern "C" fn sx_choose(_n: u64) -> u64 { next(8) }
#[no_mangle] pub extern "C" fn sx_assume(c: bool) { if !c { emit("status assume".into()); finish(104); } }
fn text<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap_or("?") } }
#[no_mangle] pub extern "C" fn sx_assert(c: bool, p: *const u8, n: usize) { if !c { emit(format!("status assert {}", text(p, n))); finish(102); } }
#[no_mangle] pub extern "C" fn sx_fail(p: *const u8, n: usize) -> ! { emit(format!("status assert {}", text(p, n))); finish(102) }
#[no_mangle] pub extern "C" fn sx_observe(v: u64) { emit(format!("obs {}", v)); }
#[no_mangle] pub extern "C" fn sx_observe_bytes(p: *const u8, n: usize) {
    let b = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    let mut s = String::from("obs x");
    for x in b { s.push_str(&format!("{:02x}", x)); }
    emit(s);
}
#[no_mangle] pub extern "C" fn sx_reach(p: *const u8, n: usize) { emit(format!("reach {}", text(p, n))); }
#[no_mangle] #[allow(static_mut_refs)] pub extern "C" fn sx_param(i: u64) -> u64 { unsafe { PARAMS.get(i as usize).cloned().unwrap_or(0) } }
#[no_mangle] pub extern "C" fn sx_note(p: *const u8, n: usize, v: u64) { emit(format!("note {} {}", text(p, n), v)); }
#[no_mangle] pub extern "C" fn sx_concretize(v: u64) -> u64 { v }

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = vh::entry(&a[1]).unwrap_or_else(|| { let _ = writeln!(std::io::stderr(), "no entry {}", a[1]); std::process::exit(2) });
    unsafe {
        PARAMS = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        INPUTS = a[3].split_whitespace().map(|s| { let (w, v) = s.split_once(':').unwrap(); (w.parse().unwrap(), v.parse().unwrap()) }).collect();
        OUT.reserve(1 << 16);
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        emit(format!("status panic {} {}", m.replace('\n', " "), loc));
        finish(101);
    }));
    f();
    emit(format!("status ok {}", unsafe { INPUTS.len() - POS }));
    finish(0);
}
