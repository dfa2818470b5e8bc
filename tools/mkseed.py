#!/usr/bin/env python3
"""Confirms planted bugs and writes them to /verif/seeded: mkseed.py SPEC.py [id...]

SPEC.py defines BUGS: dicts with id, property, needs, breaks, edits [(file, old, new)], demo (Rust),
optional schema=True (demo gets schema.rs as module `schema`), pre (shell put before the run).
Everything happens in a scratch copy of /repo, which is removed at the end."""
import json, os, shutil, subprocess, sys, runpy
SEED = "/verif/seeded"
W = "/tmp/seedwork"
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target")

DEMO = '''#!/bin/bash
# exit 0 if the behaviour in main.rs holds for the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
compact-thrift-runtime = { path = "$repo/runtime" }
compact-thrift-parquet = { path = "$repo/parquet" }
[workspace]
EOF
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" SCHEMA_RS="$repo/parquet/src/bin/schema.rs"
cd "$w" && cargo build --offline -q || exit 2
%s
timeout 120 "$w/target/debug/demo"
'''
SCHEMA = '''#[allow(dead_code, unused_imports)]
mod schema {
    include!(env!("SCHEMA_RS"));
    %s
}
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, **kw)

def tests(cwd):
    r = run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd, shell=True)
    if r.returncode:
        return False, r.stdout[-1500:]
    n = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    return n >= 26, "%d ok" % n

def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    subprocess.run(["rm", "-rf", W]); subprocess.run(["cp", "-a", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for b in spec:
        if want and b["id"] not in want:
            continue
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/main.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b.get("pre", ""))
        os.chmod(d + "/demo.sh", 0o755)
        r0 = run(["bash", d + "/demo.sh"], W)
        bad = None
        if r0.returncode:
            bad = "demo fails unpatched: " + r0.stdout[-3000:]
        else:
            for f, old, new in b["edits"]:
                s = open(os.path.join(W, f)).read()
                if s.count(old) != 1:
                    bad = "%s: %d matches for %r" % (f, s.count(old), old); break
                open(os.path.join(W, f), "w").write(s.replace(old, new))
            if not bad:
                diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout
                open(d + "/patch.diff", "w").write(diff)
                # removed lines must be lines of the base commit
                for f in {e[0] for e in b["edits"]}:
                    base = subprocess.run(["git", "-C", W, "show", "85d0c08:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
                    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                    notbase = [l for l in rem if l not in base and f in diff and len({e[0] for e in b["edits"]}) == 1]
                    if notbase:
                        print("  note: removes lines not in base:", notbase)
                ok, why = tests(W)
                if not ok:
                    bad = "tests: " + why
                else:
                    r1 = run(["bash", d + "/demo.sh"], W)
                    if r1.returncode in (0, 2):
                        bad = "demo rc %d with the patch: %s" % (r1.returncode, r1.stdout[-2000:])
        if bad:
            print("BAD ", b["id"], bad); shutil.rmtree(d)
        else:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            open(d + "/meta.json", "a").write("\n")
            print("OK  ", b["id"], b["property"], r1.returncode)
        sys.stdout.flush()
    subprocess.run(["rm", "-rf", W])

main()
