#!/usr/bin/env python3
"""Driver.  run.py setup | check ID [--tier quick|thorough] | job ENTRY p,p.. [--web] | replay FILE | list"""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, threading, time
import build
from build import V, BuildError

sys.path.insert(0, V)
EV = os.path.join(V, "evidence")
LEVEL = "model_checking"

def log(*a): print(*a, file=sys.stderr, flush=True)

STOP = threading.Event()
PROCS = set()
LOCK = threading.Lock()

def stop_engines():
    STOP.set()
    with LOCK:
        for p in PROCS: p.kill()

def run_engine(job, secs, seed, cases):
    if STOP.is_set(): return None, "stopped"
    out = tempfile.NamedTemporaryFile(prefix="sx", suffix=".json", dir=build.B, delete=False)
    out.close()
    cmd = [build.engine_bin(), "--ll", build.ir_file(job.get("web", False)), "--entry", job["entry"], "--out", out.name,
           "--max-secs", str(secs), "--seed", str(seed), "--cases", str(cases), "--max-steps", str(job.get("max_steps", 30000000)), "--viol-paths", str(job.get("viol_paths", 300))]
    for p in job["params"]: cmd += ["-p", str(p)]
    try:
        with LOCK:
            r = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            PROCS.add(r)
        try: txt, _ = r.communicate(timeout=secs + 120)
        finally:
            if r.poll() is None: r.kill(); r.wait()
            with LOCK: PROCS.discard(r)
        err = txt[-2000:] if r.returncode else None
        if err is not None and STOP.is_set(): err = "stopped"
        d = None
        if err is None:
            with open(out.name) as f: d = json.load(f)
    except subprocess.TimeoutExpired:
        d, err = None, "engine did not stop"
    except (OSError, ValueError) as e:
        d, err = None, str(e)
    try: os.unlink(out.name)
    except OSError: pass
    return d, err

def run_native(job, inputs, timeout=20):
    cmd = [build.native_bin(job.get("web", False)), job["entry"], ",".join(map(str, job["params"])), " ".join("%d:%d" % (w, v) for w, v in inputs)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd="/", env={"PATH": "/usr/bin:/bin"})
    except subprocess.TimeoutExpired:
        return dict(code="timeout", obs=[], reach=[], status="no termination within %d s" % timeout)
    txt = r.stdout.decode("utf-8", "replace").splitlines()
    return dict(code=r.returncode, obs=[l[4:] for l in txt if l.startswith("obs ")], reach=sorted({l[6:] for l in txt if l.startswith("reach ")}),
                status=next((l[7:] for l in reversed(txt) if l.startswith("status ")), "died: " + r.stderr.decode("utf-8", "replace")[-300:]))

def confirmed(viol, nat):
    if nat["code"] == "timeout": return True
    if viol["kind"] == "hang": return False
    return nat["code"] in (101, 102) or (isinstance(nat["code"], int) and nat["code"] < 0)

def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        if r.returncode == 0: return r.stdout.splitlines()
    except OSError: pass
    return names

def known():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["known"]]

def matches(k, prop, job, v):
    return k["property"] == prop and k["entry"] == job["entry"] and k["msg"] == v["msg"] and ("params" not in k or list(job["params"]) in k["params"])

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    C = checks.CHECKS[prop]
    jobs = [dict(j, params=tuple(p)) for j in C["jobs"] for p in (j["q"] + (j.get("t", []) if tier == "thorough" else []))]
    web = any(j.get("web") for j in jobs)
    cores = set(bool(j.get("web")) for j in jobs)
    try:
        for w in sorted(cores): build.build_all(web=w)
    except BuildError as e:
        print("BUILD-FAILED", e); return 2
    tb = time.time() - t0
    secs = C.get("secs", 240) if tier == "quick" else C.get("tsecs", 1500)
    ncases = 4 if tier == "quick" else 12
    res = []
    kn = known()
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(run_engine, j, secs, seed, ncases): j for j in sorted(jobs, key=lambda j: -j.get("cost", 1))}
        for f in cf.as_completed(futs):
            j, (d, err) = futs[f], f.result()
            res.append((j, d, err))
            # a violation that the compiled library shows too and that is not a listed finding decides the check
            for v in sorted((d or {}).get("violations", []), key=lambda v: v["kind"] == "hang")[:2]:
                if STOP.is_set() or any(matches(k, prop, j, v) for k in kn): continue
                v["native"] = run_native(j, v["inputs"])
                if confirmed(v, v["native"]): stop_engines()
    res.sort(key=lambda r: (r[0]["entry"], r[0]["params"]))
    problems, viols, kfs, samples = [], [], [], []
    reached, funcs = set(), set()
    tot = dict(paths=0, ok_paths=0, assumed_out=0, instrs=0, forks=0, branches=0, asserts=0, asserts_sym=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, dom_checks=0)
    solver = 0.0
    perjob = []
    validated = 0
    todo = []
    for j, d, err in res:
        label = "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))
        if d is None and err == "stopped":
            problems.append("%s: not finished, a violation was found first" % label); continue
        if d is None:
            problems.append("%s: engine error: %s" % (label, err)); continue
        for k in tot: tot[k] += d[k]
        solver += d["solver_s"]
        reached |= set(d["reached"])
        funcs |= set(d["functions"])
        if d["incomplete"]: problems.append("%s: %s" % (label, d["incomplete"]))
        perjob.append(dict(harness=j["entry"], params=list(j["params"]), paths=d["paths"], symbolic_inputs=d["max_inputs"], max_steps=d["max_steps"], queries=d["queries"], solver_s=d["solver_s"], wall_s=d["wall_s"]))
        for v in d["violations"]: viols.append((j, v))
        for c in d["cases"]: todo.append((j, c))
    # sampled paths are run on the compiled library and must show the same observations
    with cf.ThreadPoolExecutor(8) as ex:
        for (j, c), nat in zip(todo, ex.map(lambda x: run_native(x[0], x[1]["inputs"]), todo)):
            ok = nat["code"] == 0 and nat["obs"] == c["obs"] and nat["reach"] == sorted(c["reach"])
            if ok:
                validated += 1
                if len(samples) < 12: samples.append(dict(harness=j["entry"], params=list(j["params"]), inputs=[v for _, v in c["inputs"]][:64], observed=c["obs"][:6], reached=c["reach"]))
            else:
                problems.append("%s(%s): the compiled library disagrees with the encoding on inputs %s: %s / %s" % (j["entry"], ",".join(map(str, j["params"])), c["inputs"], nat, c["obs"]))
    out_v = []
    rdir = os.path.join(EV, "replays")
    if STOP.is_set(): viols = [(j, v) for j, v in viols if "native" in v or any(matches(k, prop, j, v) for k in kn)]
    with cf.ThreadPoolExecutor(8) as ex: nats = list(ex.map(lambda x: x[1].get("native") or run_native(x[0], x[1]["inputs"]), viols))
    for (j, v), nat in zip(viols, nats):
        if not confirmed(v, nat):
            problems.append("%s(%s): %s '%s' not confirmed by native replay (%s)" % (j["entry"], j["params"], v["kind"], v["msg"], nat["status"])); continue
        k = next((k for k in kn if matches(k, prop, j, v)), None)
        if k is not None:
            kfs.append((k, j, v)); continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(out_v)))
        with open(path, "w") as f:
            json.dump(dict(property=prop, entry=j["entry"], params=list(j["params"]), web=bool(j.get("web")), inputs=v["inputs"], kind=v["kind"], message=v["msg"], native=nat["status"],
                           stack=demangle(v["stack"]), rerun="python3 /verif/run.py replay " + path), f, indent=1)
        out_v.append((path, j, v, nat))
    missing = [r for r in C["reach"] if r not in reached]
    mfuncs = [x for x in demangle(sorted(f for f in funcs if "9multipart" in f))]
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, wall_s=round(time.time() - t0, 2),
        coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["instrs"], traces_validated_against_impl=validated, samples=samples or ["none"],
            meaning="states: symbolic paths finished plus forks; transitions: LLVM instructions executed symbolically along the finished paths; traces: sampled paths re-run on the compiled library with identical observations",
            exploration_complete=not problems, problems=problems[:20], jobs=len(jobs), per_job=perjob, totals=tot, solver="Z3 via FFI", solver_s=round(solver, 3), build_s=round(tb, 1),
            bounds=C["bounds"], reached=sorted(reached), required_reach=C["reach"], functions_encoded=len(funcs), multipart_functions_encoded=sorted(set(mfuncs))),
        assumptions=C.get("assume", []), outside=C.get("outside", ""),
        known_findings=[k["what"] for k, _, _ in kfs], violations=len(out_v), violation_list=[dict(replay=p, message=v["msg"]) for p, _, v, _ in out_v])
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    seen = set()
    for k, j, v in kfs:
        if k["what"] not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        seen.add(k["what"])
    for k in kn:
        if k["property"] == prop and k["what"] not in seen: print("note: listed finding not seen in this run:", k["what"])
    for p, j, v, nat in out_v:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s%s %s: %s [native: %s] inputs %s" % (j["entry"], list(j["params"]), v["kind"], v["msg"], nat["status"], " ".join(str(x) for _, x in v["inputs"])[:200]))
    print("%s %s: %d paths, %d forks, %d queries (%.1f s solver), %d traces validated, %.1f s (build %.1f)" % (prop, tier, tot["paths"], tot["forks"], tot["queries"], solver, validated, time.time() - t0, tb))
    for p in problems[:10]: print("  incomplete:", p[:600])
    if out_v: return 1
    if missing:
        print("NO-ANSWER: not reached:", missing); return 2
    # a disagreement or an unconfirmed report means the machinery cannot be trusted here
    if any("disagrees" in p or "not confirmed" in p or "engine error" in p for p in problems): print("NO-ANSWER"); return 2
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        try:
            for w in (False, True): build.build_all(web=w)
        except BuildError as e: print(e); return 1
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    if a[0] == "replay":
        d = json.load(open(a[1]))
        build.build_all(web=d["web"], parts=("native",))
        n = run_native(d, [tuple(x) for x in d["inputs"]])
        print(n["status"]); return 0 if n["code"] == 0 else 1
    if a[0] == "list":
        import checks
        for p, c in sorted(checks.CHECKS.items()):
            print(p, sum(len(j["q"]) for j in c["jobs"]), "quick jobs,", sum(len(j.get("t", [])) for j in c["jobs"]), "more in thorough")
        return 0
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main())
