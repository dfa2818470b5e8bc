#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--entry h_x]... [--keep]

Compiles the harnesses of the property together with /repo's current source to LLVM IR, lets
irsym (engine/) execute every harness symbolically, replays what it reports against a native
build, and writes evidence/<property>.json. See DESIGN.md.
"""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import registry

BUILD = os.path.join(V, "build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
JOBS = os.cpu_count() or 8
GRACE = 20.0
BUDGET = {"quick": 560.0, "thorough": 3000.0}


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900, stdin=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise CheckError("%s failed (%d):\n%s" % (what, r.returncode, (r.stdout + r.stderr)[-4000:]))
    return r


def engine():
    d = os.path.join(V, "engine")
    must(["cargo", "build", "--release", "--offline", "--quiet"], "building the engine", cwd=d,
         env={"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})
    return os.path.join(BUILD, "engine", "release", "irsym")


def feats(feature, tier, extra=()):
    f = [feature] + list(extra)
    if tier == "thorough":
        f.append("thorough")
    return ",".join(f)


def opt_tool():
    r = must(["rustc", "--print", "sysroot"], "rustc", env={"RUSTUP_TOOLCHAIN": STABLE})
    o = glob.glob(os.path.join(r.stdout.strip(), "lib/rustlib/*/bin/opt"))
    if o:
        return o[0]
    return "opt-18"


def build_ir(feature, tier, entries, profile="release"):
    """post-LTO IR of the harness crate and everything it uses, reduced to the entries"""
    td = os.path.join(BUILD, "ir-%s-%s-%s" % (feature, tier, profile))
    out = os.path.join(td, profile if profile != "dev" else "debug", "deps")
    if os.path.isdir(out):
        for f in glob.glob(os.path.join(out, "vpharness*")):
            os.remove(f)
    must(["cargo", "rustc", "--profile", profile, "--offline", "--quiet", "--features", feats(feature, tier), "--",
          "-C", "link-args=-Wl,--unresolved-symbols=ignore-all"],
         "compiling the harnesses of %s to IR" % feature, cwd=os.path.join(V, "harness"),
         env={"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": td,
              "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp -C save-temps --emit=obj"})
    bc = [f for f in glob.glob(os.path.join(out, "vpharness-*.bc")) if re.search(r"-cgu\.0\.rcgu\.bc$", f)]
    if len(bc) != 1:
        raise CheckError("expected one bitcode file, found %s" % bc)
    ll = os.path.join(td, "harness.ll")
    must([opt_tool(), "-strip-debug", "-passes=internalize,globaldce",
          "--internalize-public-api-list=" + ",".join(entries), bc[0], "-S", "-o", ll], "opt")
    return ll


def build_native(feature, tier, profile, sanitizer=None):
    tc = STABLE
    env = {}
    extra = []
    td = os.path.join(BUILD, "native-%s-%s-%s" % (feature, tier, sanitizer or "plain"))
    if sanitizer:
        tc = NIGHTLY
        env["RUSTFLAGS"] = "-Zsanitizer=" + sanitizer
        extra = ["--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(td, "x86_64-unknown-linux-gnu")
    else:
        out = td
    env.update({"RUSTUP_TOOLCHAIN": tc, "CARGO_TARGET_DIR": td})
    must(["cargo", "build", "--profile", profile, "--offline", "--quiet", "--features", feats(feature, tier, ["native"])] + extra,
         "native build of %s" % feature, cwd=os.path.join(V, "harness"), env=env)
    return os.path.join(out, "debug" if profile == "dev" else profile, "vpharness")


def run_native(binary, entry, tape, timeout=20, prefix=()):
    try:
        r = sh(list(prefix) + [binary, entry], stdin=" ".join(map(str, tape)), timeout=timeout, env={"RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired:
        return {"rc": None, "kind": "hang", "label": "no end within %d s" % timeout, "obs": []}
    o = {"rc": r.returncode, "kind": "other", "label": (r.stderr or "")[-1500:], "obs": []}
    for l in r.stdout.splitlines():
        k, _, v = l.partition(" ")
        if k == "OBS":
            o["obs"].append(int(v))
        elif k == "FAIL":
            o.update(kind="fail", label=v)
        elif k == "PANIC":
            o.update(kind="panic", label=v)
        elif k == "ALLOC":
            o.update(kind="alloc", label=v)
        elif k == "ASSUME":
            o.update(kind="assume", label="")
        elif k == "DONE" and r.returncode == 0:
            o.update(kind="ok", label="")
        elif k in ("BADTAPE", "NOENTRY"):
            o.update(kind="bad", label=l)
    if r.returncode < 0 or r.returncode in (134, 135, 136, 139):
        o.update(kind="crash", label="signal %d %s" % (r.returncode, (r.stderr or "")[-300:]))
    return o


ENTRY = re.compile(r'^\s*(?:#\[[^\]]*\]\s*)*(h_\w+)\s*,\s*(\d+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*=>', re.M)


def harness_entries(module):
    """(name, covers, bound) of every entry of a harness module"""
    s = open(os.path.join(V, "harness", "src", module + ".rs")).read()
    return [(m.group(1), int(m.group(2)), m.group(3)) for m in ENTRY.finditer(s)]


def irsym(eng, ll, entry, tier, seed, budget, jobs, stop):
    d = tempfile.mkdtemp(prefix="irsym", dir=BUILD)
    try:
        o = os.path.join(d, "out.json")
        p = subprocess.Popen([eng, "--ll", ll, "--entry", entry, "--jobs", str(jobs), "--timeout", "%.0f" % budget,
                              "--out", o, "--seed", str(seed), "--stop", stop],
                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), start_new_session=True)
        end, late = time.time() + budget + 120, None
        while True:
            try:
                p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                pass
            # a single query can take longer than the rest of the budget
            if late is None and os.path.exists(stop):
                late = time.time() + GRACE
            if time.time() > min(end, late or end):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return {"error": "engine did not stop in time", "reports": []}
        stderr = open(os.path.join(d, "err"), errors="replace").read()
        if not os.path.exists(o):
            return {"error": "engine failed (%s): %s" % (p.returncode, stderr[-1500:]), "reports": []}
        try:
            reps = json.load(open(o))
        except ValueError as x:
            return {"error": "engine output: %s %s" % (x, stderr[-500:]), "reports": []}
        errs = [x["error"] for x in reps if x["error"]]
        err = next((e for e in errs if "time budget" not in e), errs[0] if errs else None)
        if p.returncode == 3 and not err:
            err = "engine failure: " + stderr[-1500:]
        return {"error": err, "reports": reps}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def merge(reps):
    m = {"max_query_us": 0, "max_tape": 0, "max_steps": 0, "violations": [], "samples": [], "reach": {}, "functions": set(), "counts": {}}
    for k in ("paths", "killed", "forks", "instrs", "queries", "sat", "unsat", "cached", "solver_us", "nodes"):
        m[k] = sum(r[k] for r in reps)
    for r in reps:
        for k in ("max_query_us", "max_tape", "max_steps"):
            m[k] = max(m[k], r[k])
        m["violations"] += r["violations"]
        m["samples"] += r["samples"]
        for k, n in r["reach"]:
            m["reach"][k] = m["reach"].get(k, 0) + n
        for k, l, n in r["violation_counts"]:
            m["counts"][(k, l)] = m["counts"].get((k, l), 0) + n
        m["functions"] |= set(r["functions"])
    return m


def demangle(names):
    out = set()
    for n in names:
        m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
        if m:
            s, parts = m.group(1), []
            while s:
                k = re.match(r"\d+", s)
                if not k:
                    break
                l = int(k.group(0))
                parts.append(s[k.end():k.end() + l])
                s = s[k.end() + l:]
            n = "::".join(parts)
        elif n.startswith("_R"):
            # v0 mangling: keep the identifiers
            ids = []
            i = 2
            while i < len(n):
                k = re.match(r"(\d+)_?", n[i:])
                if k and n[i] != "0":
                    l = int(k.group(1))
                    j = i + k.end()
                    w = n[j:j + l]
                    if len(w) == l and re.match(r"^[A-Za-z_]\w*$", w):
                        ids.append(w)
                        i = j + l
                        continue
                i += 1
            n = "::".join(ids) or n
        n = (n.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",")
             .replace("$u7b$", "{").replace("$u7d$", "}").replace("..", "::"))
        out.add(n)
    return sorted(out)


class Replayer:
    def __init__(self, feature, tier):
        self.feature, self.tier, self.bins, self.san = feature, tier, {}, {}

    def bin(self, profile):
        if profile not in self.bins:
            self.bins[profile] = build_native(self.feature, self.tier, profile)
        return self.bins[profile]

    def sanitized(self, name):
        if name not in self.san:
            try:
                self.san[name] = build_native(self.feature, self.tier, "dev", name)
            except CheckError:
                self.san[name] = None
        return self.san[name]

    def reproduce(self, entry, v):
        """how the violation shows in a native run, or None"""
        k = v["kind"]
        for prof in ("dev", "user"):
            r = run_native(self.bin(prof), entry, v["tape"])
            if r["kind"] in ("fail", "panic", "crash", "alloc", "hang"):
                return "%s build: %s: %s" % (prof, r["kind"], r["label"].strip())
        if k in ("memory", "uninit", "ub"):
            b = self.sanitized("address")
            if b:
                r = run_native(b, entry, v["tape"], timeout=60)
                if "AddressSanitizer" in r["label"]:
                    m = re.search(r"AddressSanitizer: [^\n]*", r["label"])
                    return "address sanitizer: " + (m.group(0) if m else "")
            r = run_native(self.bin("dev"), entry, v["tape"], timeout=120,
                           prefix=("valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes"))
            if r["rc"] == 77:
                return "valgrind: " + r["label"][:400]
            r = self.miri(entry, v["tape"])
            if r:
                return r
        return None

    def miri(self, entry, tape):
        try:
            r = sh(["cargo", "miri", "run", "--offline", "--quiet", "--features", feats(self.feature, self.tier, ["native"]), "--", entry],
                   env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": os.path.join(BUILD, "miri-" + self.feature),
                        "MIRIFLAGS": "-Zmiri-disable-isolation"},
                   cwd=os.path.join(V, "harness"), stdin=" ".join(map(str, tape)), timeout=240)
        except subprocess.TimeoutExpired:
            return None
        m = re.search(r"error: Undefined Behavior: [^\n]*", r.stderr)
        return "miri: " + m.group(0) if m else None


def known(prop, entry, v, findings):
    for f in findings:
        if f["property"] == prop and f["entry"] == entry and f["kind"] == v["kind"] and f["label"] == v["label"]:
            return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry", action="append")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a.setup:
        r = must([engine(), "--selftest", "3000"], "self test of the engine")
        print(r.stdout.strip())
        return 0
    p = registry.PROPS[a.prop]
    findings = [f for f in json.load(open(os.path.join(V, "known_findings.json"))) if f.get("status") == "known"]
    deadline = t0 + BUDGET[tier]

    todo = []  # (module, profile, entry, covers, bound)
    for mod in p["modules"]:
        for n, c, bnd in harness_entries(mod):
            if a.entry and n not in a.entry:
                continue
            if n.endswith("_t") and tier != "thorough":
                continue
            todo.append((mod, n, c, bnd))
    if not todo:
        raise CheckError("no entries")

    # build engine, IR and replay binaries side by side
    profiles = ["release"] + (["symrel"] if tier == "thorough" else [])
    reps = {m: Replayer(m, tier) for m in p["modules"]}
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fi = {(m, pr): ex.submit(build_ir, m, tier, [t[1] for t in todo if t[0] == m], pr)
              for m in p["modules"] for pr in profiles if any(t[0] == m for t in todo)}
        fn = [ex.submit(reps[m].bin, "dev") for m in p["modules"]]
        eng = fe.result()
        lls = {k: f.result() for k, f in fi.items()}
        for f in fn:
            f.result()
    t_build = time.time() - t0

    runs = [(t, pr) for pr in profiles for t in todo]
    results = {}
    pool = 4 if len(runs) > 3 else max(1, len(runs))
    jobs = JOBS

    # once a violation that is not listed is seen the engines get GRACE more seconds
    stop = os.path.join(BUILD, ".stop-" + a.prop)
    seen_file = stop + ".seen"
    for f in (stop, seen_file):
        if os.path.exists(f):
            os.remove(f)
    finished = threading.Event()

    def watch():
        due = None
        while not finished.wait(1.0):
            if due is None and os.path.exists(seen_file):
                for l in open(seen_file, errors="replace"):
                    w = l.rstrip("\n").split("\t")
                    if len(w) == 3 and not w[2].startswith("harness:") and not known(a.prop, w[0], {"kind": w[1], "label": w[2]}, findings):
                        due = time.time() + GRACE
            if due is not None and time.time() > due:
                open(stop, "w").close()
                return

    watcher = threading.Thread(target=watch, daemon=True)
    watcher.start()

    def one(rn):
        (mod, n, c, bnd), pr = rn
        # no entry takes more than its share, so that all get their turn
        left = min(deadline - time.time(), BUDGET[tier] * 0.55)
        if left < 5 or os.path.exists(stop):
            return rn, {"error": "time budget exhausted or stopped before this entry", "reports": []}, 0.0
        t1 = time.time()
        r = irsym(eng, lls[(mod, pr)], n, tier, seed, left, jobs, stop)
        return rn, r, time.time() - t1

    with cf.ThreadPoolExecutor(pool) as ex:
        for rn, r, w in ex.map(one, runs):
            results[(rn[0][1], rn[1])] = (rn, r, w)

    finished.set()
    watcher.join()
    for f in (stop, seen_file):
        if os.path.exists(f):
            os.remove(f)

    errors, violations, knowns, partial = [], [], [], []
    per = []
    tot = {k: 0 for k in ("paths", "killed", "forks", "instrs", "queries", "sat", "unsat", "cached", "solver_us")}
    funcs, samples, validated = set(), [], 0
    maxq = 0
    for (n, pr), (rn, r, w) in results.items():
        mod, _, covers, bnd = rn[0]
        m = merge(r["reports"]) if r["reports"] else None
        if r["error"]:
            if "time budget exhausted" in r["error"] and m and m["paths"] and not m["violations"]:
                partial.append("%s (%s): %d paths, %s" % (n, pr, m["paths"], r["error"]))
            else:
                errors.append("%s (%s): %s" % (n, pr, r["error"]))
        if not m:
            continue
        funcs |= m["functions"]
        for k in tot:
            tot[k] += m[k]
        maxq = max(maxq, m["max_query_us"])
        per.append({"entry": n, "profile": pr, "bound": bnd, "paths": m["paths"], "killed_by_assumption": m["killed"],
                    "instructions": m["instrs"], "queries": m["queries"], "unsat": m["unsat"], "sat": m["sat"],
                    "solver_s": round(m["solver_us"] / 1e6, 3), "max_query_s": round(m["max_query_us"] / 1e6, 3),
                    "max_symbols": m["max_tape"], "max_steps": m["max_steps"], "covers": {str(k): v for k, v in sorted(m["reach"].items())},
                    "wall_s": round(w, 2)})
        # violations, one per (kind, label)
        seen = set()
        for v in m["violations"]:
            key = (v["kind"], v["label"])
            if key in seen:
                continue
            how = None
            # several counterexamples of one label: the first that reproduces counts
            cands = [x for x in m["violations"] if (x["kind"], x["label"]) == key][:6]
            for x in cands:
                how = reps[mod].reproduce(n, x)
                if how:
                    v = x
                    break
            seen.add(key)
            if v["kind"] == "fail" and v["label"].startswith("harness:"):
                errors.append("%s (%s): %s" % (n, pr, v["label"]))
                continue
            if not how:
                errors.append("%s (%s): counterexample does not reproduce natively: %s %s tape %s" % (n, pr, v["kind"], v["label"], v["tape"]))
                continue
            f = known(a.prop, n, v, findings)
            rec = {"entry": n, "module": mod, "profile": pr, "kind": v["kind"], "label": v["label"], "tape": v["tape"],
                   "stack": v["stack"], "reproduced": how, "paths": m["counts"].get(key, 1)}
            (knowns if f else violations).append((rec, f))
        # covers
        if not m["violations"] and not r["error"]:
            if len(m["reach"]) < covers:
                errors.append("%s (%s): only covers %s reached of %d" % (n, pr, sorted(m["reach"]), covers))
            if m["paths"] == 0:
                errors.append("%s (%s): no path" % (n, pr))
        # sampled paths against the native build
        good = 0
        for s in m["samples"][:registry.SAMPLES[tier]]:
            x = run_native(reps[mod].bin("dev"), n, s["tape"])
            if x["kind"] != "ok" or x["obs"] != s["obs"]:
                errors.append("%s (%s): path %s observed %s symbolically, %s %s %s natively" % (n, pr, s["tape"], s["obs"], x["kind"], x["label"], x["obs"]))
                break
            good += 1
        validated += good
        if m["samples"]:
            samples.append({"entry": n, "profile": pr, "inputs": m["samples"][0]["tape"], "observed": m["samples"][0]["obs"]})

    code = 0
    rdir = os.path.join(V, "replays")
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.prop + "-*.json")):
        os.remove(f)
    for i, (rec, _) in enumerate(violations):
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, i))
        rec["how_to_replay"] = "cd %s && python3 replay.py %s" % (V, path)
        rec["tier"] = tier
        json.dump(rec, open(path, "w"), indent=1)
        print("violated: %s: %s [%s]" % (rec["entry"], rec["label"], rec["reproduced"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        code = 1
    for rec, f in knowns:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    if not a.entry:
        for f in findings:
            if f["property"] == a.prop and not any(k is f for _, k in knowns) and not errors and not partial:
                print("note: known finding no longer observed: %s" % f["what"])
    for e in errors:
        print("ERROR %s: %s" % (a.prop, e), file=sys.stderr)
    for e in partial:
        print("INCOMPLETE %s: held on everything explored, but the bound was not exhausted: %s" % (a.prop, e))
    if errors and not code:
        code = 2
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["instrs"],
            "traces_validated_against_impl": validated, "samples": samples[:12],
            "paths": tot["paths"], "paths_cut_by_assumptions": tot["killed"], "forks": tot["forks"],
            "queries": {"total": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "answered_from_cache": tot["cached"],
                        "solver_s": round(tot["solver_us"] / 1e6, 3), "longest_s": round(maxq / 1e6, 3)},
            "solver": "Z3 (libz3) " + sh([eng, "--version", "1"]).stdout.strip(),
            "bounds_exhausted": not partial and not errors, "not_exhausted": partial,
            "harnesses": per, "outside_the_bounds": p["outside"],
            "functions_encoded": [f for f in demangle(funcs) if "compact_thrift" in f or "vpharness" in f or "schema" in f],
            "functions_encoded_total": len(funcs), "build_s": round(t_build, 2),
            "unchanged_known_findings": [r["label"] for r, _ in knowns], "errors": errors,
        },
        "assumptions": registry.COMMON + p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(V, "evidence", a.prop + ".json"), "w"), indent=1)
    if a.verbose:
        for x in sorted(per, key=lambda x: -x["wall_s"]):
            print("  %-28s %-8s paths %8d killed %7d instrs %10d queries %7d solver %6.1fs wall %6.1fs covers %s" % (
                x["entry"], x["profile"], x["paths"], x["killed_by_assumption"], x["instructions"], x["queries"], x["solver_s"], x["wall_s"], x["covers"]))
    print("%s %s: %d paths, %d queries (%.1f s solver), %d native traces, %d violations, %d errors, %.1f s (build %.1f)" % (
        a.prop, tier, tot["paths"], tot["queries"], tot["solver_us"] / 1e6, validated, len(violations), len(errors), time.time() - t0, t_build))
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
