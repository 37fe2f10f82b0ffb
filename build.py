#!/usr/bin/env python3
"""Builds: the engine, the harness as LLVM IR (from /repo's current tree), and the native replay binary."""
import hashlib, json, os, shutil, subprocess, sys, threading, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
STABLE = "1.90.0"
SKIP = ("proc_macro", "panic_unwind", "rustc_literal", "rustc-literal", "quick_error", "quick-error", "cfg_if", "cfg-if", "rustc_std", "rustc-std", "unwind")

class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None, what=""):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if env: e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s failed (%s):\n%s" % (what or cmd[0], p.returncode, p.stdout[-6000:]))
    return p.stdout

def tree_hash(paths, exts=None):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if exts and not f.endswith(exts): continue
                h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()

def repo_hash():
    return tree_hash([REPO + "/src", REPO + "/Cargo.toml"])
def harness_hash(web):
    h = V + "/harness"
    return tree_hash([h + "/src", h + "/stubs", h + "/Cargo.toml", h + "/Cargo.lock", h + "/sx.json", V + "/build.py"]) + ("w" if web else "")

def stamp(name, val):
    p = os.path.join(B, name)
    try:
        return open(p).read() == val
    except OSError:
        return False
def set_stamp(name, val):
    with open(os.path.join(B, name), "w") as f: f.write(val)

def engine_bin():
    return os.path.join(V, "engine/target/release/sx")
def build_engine():
    h = tree_hash([V + "/engine/src", V + "/engine/Cargo.toml"])
    if stamp("engine.stamp", h) and os.path.exists(engine_bin()): return
    sh(["cargo", "build", "--release", "--offline"], {"RUSTUP_TOOLCHAIN": STABLE}, V + "/engine", "engine build")
    set_stamp("engine.stamp", h)

def llvm_tools():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return r + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"

def touch_repo_deps(target):
    """cargo's freshness test is by time stamp; drop the products of the crates under change so that content decides"""
    for d, ds, fs in os.walk(target):
        for x in list(ds):
            if x.startswith("multipart-") or x.startswith("vh-") or x in ("multipart", "vh"):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds.remove(x)

def ir_file(web):
    return os.path.join(B, "web.ll" if web else "core.ll")
def build_ir(web=False):
    key = repo_hash() + harness_hash(web)
    name = "ir-web" if web else "ir-core"
    if stamp(name + ".stamp", key) and os.path.exists(ir_file(web)): return
    tgt = os.path.join(B, name)
    for attempt in (0, 1):
        try:
            return _build_ir(web, tgt, name, key)
        except BuildError:
            if attempt == 1 or not os.path.isdir(tgt): raise
            shutil.rmtree(tgt, ignore_errors=True)

def _build_ir(web, tgt, name, key):
    if os.path.isdir(tgt): touch_repo_deps(tgt)
    flags = "-Asemicolon_in_expressions_from_macros -Awarnings -Copt-level=1 -Cno-vectorize-loops -Cno-vectorize-slp -Crelocation-model=static --cfg rustix_use_libc --emit=llvm-bc"
    cmd = ["cargo", "+nightly", "build", "--offline", "-Zbuild-std=std,panic_abort", "-Zjson-target-spec", "--target", "./sx.json", "--lib"]
    if web: cmd += ["--features", "web"]
    sh(cmd, {"RUSTFLAGS": flags, "CARGO_CFG_HTTPARSE_DISABLE_SIMD": "1", "CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "nightly"}, V + "/harness", "IR build")
    bcs = []
    for d, ds, fs in os.walk(tgt + "/sx/debug"):
        for f in fs:
            if f.endswith(".bc") and not any(f.startswith(s) for s in SKIP): bcs.append(os.path.join(d, f))
    seen = {}
    for p in sorted(bcs):
        crate = os.path.basename(p).rsplit("-", 1)[0]
        seen.setdefault(crate, []).append(p)
    for c, ps in seen.items():
        if len(ps) > 1 and c in ("multipart", "vh"): raise BuildError("ambiguous bitcode for %s: %s" % (c, ps))
    t = llvm_tools()
    o = os.path.join(B, name)
    sh([t + "llvm-link", "-o", o + ".bc"] + sorted(bcs), what="llvm-link")
    syms = subprocess.run([t + "llvm-nm", "--defined-only", o + ".bc"], stdout=subprocess.PIPE, text=True).stdout
    keep = [l.split()[-1] for l in syms.splitlines() if " T " in l and not l.split()[-1].startswith(("_R", "_ZN"))]
    with open(o + ".keep", "w") as f: f.write("\n".join(keep))
    sh([t + "opt", "-passes=internalize,globaldce", "-internalize-public-api-file=" + o + ".keep", o + ".bc", "-o", o + ".opt.bc"], what="opt")
    sh([t + "llvm-dis", o + ".opt.bc", "-o", ir_file(web) + ".tmp"], what="llvm-dis")
    os.rename(ir_file(web) + ".tmp", ir_file(web))
    set_stamp(name + ".stamp", key)

def native_bin(web=False):
    return os.path.join(B, "replay-web" if web else "replay-core")
def build_native(web=False):
    key = repo_hash() + harness_hash(web)
    name = "nat-web" if web else "nat-core"
    if stamp(name + ".stamp", key) and os.path.exists(native_bin(web)): return
    tgt = os.path.join(B, name)
    for attempt in (0, 1):
        try:
            if os.path.isdir(tgt): touch_repo_deps(tgt)
            sh(["cargo", "build", "--offline", "--features", "native,web" if web else "native", "--bin", "replay"],
               {"RUSTFLAGS": "-Awarnings -Clink-args=-rdynamic", "CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": STABLE}, V + "/harness", "native build")
            break
        except BuildError:
            if attempt == 1: raise
            shutil.rmtree(tgt, ignore_errors=True)
    shutil.copy2(tgt + "/debug/replay", native_bin(web))
    set_stamp(name + ".stamp", key)

def build_all(web=False, parts=("engine", "ir", "native")):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    errs = []
    def go(f, *a):
        try: f(*a)
        except Exception as e: errs.append(e)
    ts = []
    if "engine" in parts: ts.append(threading.Thread(target=go, args=(build_engine,)))
    if "ir" in parts: ts.append(threading.Thread(target=go, args=(build_ir, web)))
    if "native" in parts: ts.append(threading.Thread(target=go, args=(build_native, web)))
    for t in ts: t.start()
    for t in ts: t.join()
    lock.close()
    if errs: raise errs[0]

if __name__ == "__main__":
    t0 = time.time()
    try:
        build_all(web="web" in sys.argv[1:])
    except BuildError as e:
        print(e); sys.exit(2)
    print("built in %.1f s" % (time.time() - t0))
