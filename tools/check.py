#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of the code in /repo.

1. mirrors /repo's current source into the build directory, compiles the harness crates of the property
   together with the real crates to LLVM IR and, in the same compiler run, to a native binary;
2. runs the symbolic executor (engine/) on every harness of the property; each check in a harness is an
   assertion that the SMT solver has to discharge for every value of the symbolic inputs;
3. replays each counterexample in the native binary: only one that reproduces is a violation;
   replays solver models of finished paths too (translator validation);
4. writes evidence/PROPERTY.json.

exit 0: held on everything explored; 1: violation; 2: no verdict (a solver limit, a counterexample that
does not reproduce, a vacuous harness, a build failure)."""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mirror

VERIF, BUILD, WS = mirror.VERIF, mirror.BUILD, mirror.WS
ENGINE = f"{VERIF}/engine/target/release/llsym"
T0 = time.time()
TIER_TIME = {"quick": 420, "thorough": 3000}
ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def die(msg, code=2):
    print(f"NO-VERDICT: {msg}", flush=True)
    sys.exit(code)


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    r = run(["cargo", "build", "--release", "--offline"], f"{VERIF}/engine")
    if r.returncode:
        die("engine does not build:\n" + r.stdout[-3000:])


def build_crate(h):
    """Compiles one harness crate; returns (ll, binary)."""
    os.makedirs(f"{BUILD}/ll", exist_ok=True)
    ll = f"{BUILD}/ll/{h}.ll"
    binary = f"{WS}/target/release/h-{h}"
    cmd = ["cargo", "rustc", "--offline", "--release", "-p", f"h-{h}", "--",
           "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", f"--emit=llvm-ir={ll},link"]
    if not os.path.exists(ll):
        p = f"{WS}/h/{h}/src/main.rs"
        os.utime(p)
    r = run(cmd, WS)
    if r.returncode:
        errs = "\n".join(re.findall(r"^error.*(?:\n.+)*", r.stdout, re.M)[:8])
        die(f"harness crate {h} does not compile against /repo:\n{errs[-5000:] or r.stdout[-3000:]}")
    return ll, binary


def known_findings():
    out = []
    try:
        for line in open(f"{VERIF}/KNOWN_FINDINGS.txt"):
            m = re.match(r"known: property=(\S+) label=\[(.*?)\] (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def engine_run(ll, h, name, ann, tier, stop):
    # about three times what the harness is known to need, for a loaded or slower machine
    t = int(ann.get("time", "120")) * 3
    if tier == "thorough":
        t = int(ann.get("ttime", str(t * 2)))
    t = max(5, min(t, int(TIER_TIME[tier] - (time.time() - T0))))
    out = f"{BUILD}/out/{name}.json"
    cmd = [ENGINE, "--ll", ll, "--harness", name, "--out", out, "--max-time", str(t)]
    for k, o in (("paths", "--max-paths"), ("instrs", "--max-instrs"), ("query_ms", "--query-ms"),
                 ("fallback_s", "--fallback-s"), ("enum", "--enum-limit")):
        if k in ann:
            cmd += [o, ann[k]]
    if os.path.exists(out):
        os.remove(out)
    env = dict(ENV)
    if "z3" in ann:
        env["LLSYM_Z3"] = ann["z3"]
    t1 = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    hard = t + 90
    while True:
        try:
            so, se = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set() or time.time() - t1 > hard:
                p.kill()
                so, se = p.communicate()
                break
    try:
        rep = json.load(open(out))
    except (OSError, ValueError):
        rep = {"status": "killed" if stop.is_set() else "error", "stderr": (se or "")[-1500:], "rc": p.returncode}
    rep["harness"] = name
    rep["crate"] = h
    rep["wall"] = round(time.time() - t1, 1)
    return rep


def replay(binary, name, inputs, tag):
    path = f"{BUILD}/out/{name}.{tag}.replay"
    with open(path, "w") as f:
        for n, bits, v in inputs:
            f.write(f"{bits} {v} {n}\n")
    env = dict(os.environ)
    env["SYM_REPLAY"] = path
    env["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([binary, name], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=60, cwd=f"{BUILD}/out")
        return path, r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return path, 124, "timeout"


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    os.makedirs(f"{BUILD}/out", exist_ok=True)
    todo = []
    for h in mirror.harness_crates():
        for mod, name, ann in mirror.scan(h):
            if prop in re.split(r"[ ,]+", ann.get("prop", "")) and (tier == "thorough" or ann.get("tier", "quick") == "quick"):
                if ann.get("tier") == "quickonly" and tier == "thorough":
                    continue
                todo.append((h, name, ann))
    if not todo:
        die(f"no harness for {prop}")
    only = os.environ.get("VERIF_ONLY")
    if only:
        todo = [t for t in todo if re.search(only, t[1])]
    lock = open(f"{BUILD}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror.lay_out()
    et = threading.Thread(target=build_engine)
    et.start()
    crates = sorted({h for h, _, _ in todo})
    built = {h: build_crate(h) for h in crates}
    et.join()
    if not os.path.exists(ENGINE):
        die("engine missing")
    # private copies, so that another check may rebuild meanwhile
    priv = f"{BUILD}/run.{os.getpid()}"
    os.makedirs(priv, exist_ok=True)
    for h, (ll, b) in list(built.items()):
        shutil.copy(b, f"{priv}/h-{h}")
        os.link(ll, f"{priv}/{h}.ll")
        os.remove(ll)
        shutil.copy(f"{priv}/{h}.ll", ll)
        built[h] = (f"{priv}/{h}.ll", f"{priv}/h-{h}")
    fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - T0
    log(f"built {', '.join(crates)}; {len(todo)} harnesses")
    try:
        rc = decide(prop, tier, todo, built, build_s)
    finally:
        shutil.rmtree(priv, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, todo, built, build_s):
    stop = threading.Event()
    reps = []
    violations, problems, known_hit = [], [], []
    known = [(l, d) for p, l, d in known_findings() if p == prop]
    validated = mism = 0
    todo = sorted(todo, key=lambda t: -int(t[2].get("time", "120")))
    workers = int(os.environ.get("VERIF_JOBS", "8"))

    def one(t):
        h, name, ann = t
        if stop.is_set():
            return None, ann
        return engine_run(built[h][0], h, name, ann, tier, stop), ann

    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, t) for t in todo]
        for fu in cf.as_completed(futs):
            rep, ann = fu.result()
            if rep is None:
                continue
            reps.append(rep)
            name, binary = rep["harness"], built[rep["crate"]][1]
            st = rep["status"]
            log(f"{name}: {st} paths={rep.get('paths')} queries={rep.get('queries')} solver={rep.get('solver_s')} wall={rep['wall']}")
            if st == "killed":
                continue
            if st == "error":
                problems.append(f"{name}: engine error {rep.get('stderr', '')[-400:]}")
                continue
            for i, v in enumerate(rep.get("violations", [])):
                path, code, txt = replay(binary, name, v["inputs"], f"cex{i}")
                reproduced = False
                what = v["msg"]
                if code == 77 and "SYM-CHECK-FAILED" in txt:
                    reproduced = True
                    what = re.search(r"SYM-CHECK-FAILED: (.*)", txt).group(1)
                elif "SYM-PANIC:" in txt and code < 0:
                    reproduced = True
                    what = "panic: " + re.search(r"SYM-PANIC: ((?:.|\n)*)", txt).group(1).strip().replace("\n", " ")[:300]
                elif code < 0 or code == 124:
                    reproduced = True
                    what = f"{v['msg']} (native run ended with {code})"
                if not reproduced:
                    problems.append(f"{name}: counterexample for '{v['msg']}' does not reproduce (native exit {code}): {txt[-300:]}")
                    continue
                kf = [d for l, d in known if l == what]
                if kf:
                    known_hit.append((kf[0], path))
                    continue
                dst = f"{VERIF}/evidence/replay-{prop}-{name}-{i}.txt"
                os.makedirs(f"{VERIF}/evidence", exist_ok=True)
                with open(dst, "w") as f:
                    f.write(f"# {prop}: {what}\n# harness {name} (crate h-{rep['crate']}), at {v.get('loc')}\n")
                    f.write(open(path).read())
                violations.append((name, what, dst))
            if violations:
                stop.set()
                continue
            for k, n in rep.get("inconclusive", {}).items():
                problems.append(f"{name}: inconclusive: {k} x{n}")
            if st == "inconclusive" and not rep.get("inconclusive"):
                problems.append(f"{name}: inconclusive")
            if st == "ok" or st == "violation":
                want = [c.strip() for c in ann.get("covers", "").split("|") if c.strip()]
                miss = [c for c in want if not rep.get("covers", {}).get(c)]
                if miss and st == "ok":
                    problems.append(f"{name}: vacuous: never reached {miss}")
                if st == "ok" and not rep.get("checks"):
                    problems.append(f"{name}: vacuous: no check was evaluated")
            for i, s in enumerate(rep.get("samples", [])[:8]):
                path, code, txt = replay(binary, name, s["inputs"], f"s{i}")
                ok = False
                if s["end"] == "done":
                    m = re.search(r"SYM-END inputs=(\d+) checks=(\d+) covers=(\d+)", txt)
                    ok = code == 0 and m is not None and int(m.group(2)) == s["checks"] and int(m.group(3)) == s["covers"]
                elif "panic" in s["end"]:
                    ok = "SYM-EXPECTED-PANIC" in txt
                elif s["end"].startswith("assum"):
                    ok = code == 78
                else:
                    continue
                if ok:
                    validated += 1
                elif st != "violation":
                    mism += 1
                    problems.append(f"{name}: native replay of a finished path differs (end {s['end']}, exit {code}): {txt[-200:]}")
                if ok:
                    os.remove(path)
    evidence(prop, tier, todo, reps, validated, len(violations), build_s, problems)
    for d, path in {k: p for k, p in known_hit}.items():
        print(f"KNOWN-FINDING: property={prop} {d}", flush=True)
    for name, what, dst in violations:
        log(f"violated in {name}: {what}")
    if violations:
        name, what, dst = violations[0]
        print(f"VIOLATION property={prop} replay={dst}", flush=True)
        return 1
    if problems:
        for p in problems[:20]:
            print("NO-VERDICT:", p, flush=True)
        return 2
    print(f"OK property={prop} tier={tier} harnesses={len(todo)} wall={time.time() - T0:.0f}s", flush=True)
    return 0


def evidence(prop, tier, todo, reps, validated, nviol, build_s, problems):
    S = lambda k: sum(r.get(k) or 0 for r in reps)
    funcs, samples, checks = {}, [], {}
    for r in reps:
        for f, n in r.get("functions", []):
            m = re.search(r"/ws/(?!h/)(.*)$", f)
            if m and "/target/" not in f and not m.group(1).startswith("target"):
                funcs.setdefault(m.group(1), set()).add(n)
        for k, v in r.get("checks", {}).items():
            c = checks.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for s in r.get("samples", [])[:1]:
            if len(samples) < 8:
                samples.append({"harness": r["harness"], "end": s["end"], "inputs": s["inputs"][:12]})
    assumes = sorted({a.strip() for _, _, ann in todo for a in ann.get("assumes", "").split(";") if a.strip()})
    base = [
        "the release profile of the workspace (overflow checks on, panic = abort) compiled by rustc 1.99 to LLVM IR at opt-level 2 is what is executed; alloc never fails; core::fmt::write has an empty body unless a harness asks for it",
        "stand-ins replace crates absent from the offline cache: parity-scale-codec (SCALE), merkletree-mintlayer, enum-iterator",
    ]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": max(1, S("paths")), "transitions": max(1, S("instrs")),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "forks": S("forks"), "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"),
            "unknown": S("unknown"), "solver_s": round(S("solver_s"), 2), "fallback_solved": {k: sum((r.get("fallback_solved") or {}).get(k, 0) for r in reps) for k in sorted({k for r in reps for k in (r.get("fallback_solved") or {})})},
            "checks": {k: {"evaluations": v[0], "discharged_by_solver": v[1]} for k, v in sorted(checks.items())},
            "functions_encoded": {k: sorted(v) for k, v in sorted(funcs.items())},
            "harnesses": [{"name": n, "bounds": a.get("bounds", ""), "time_limit_s": int(a.get("time", "120")),
                           **{k: next((r.get(k) for r in reps if r["harness"] == n), None) for k in ("status", "paths", "queries", "solver_s", "wall", "covers")}}
                          for _, n, a in todo],
            "bounds": sorted({a.get("bounds", "") for _, _, a in todo if a.get("bounds")}),
            "build_s": round(build_s, 1), "problems": problems[:20],
            "states_meaning": "completed symbolic paths; transitions are IR instructions executed",
        },
        "assumptions": base + assumes,
        "wall_s": round(time.time() - T0, 1),
        "violations": nviol,
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
