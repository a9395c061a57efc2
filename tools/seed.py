#!/usr/bin/env python3
"""Development tool for the planted bugs in /verif/seeded (no check uses it).

  seed.py make SPEC.py...    build seeded/<id>/ from a spec (BUGS list)
  seed.py validate [ID...]   scratch copy: applies, builds, tests pass, demo 0/non-zero
  seed.py check [ID...]      apply to /repo, run the property's quick check, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

SEEDED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# Runs demo.rs against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/" && mv "$d/src/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
safe-discriminant = "0.2.0"
tpm2 = { path = "$repo/crates/tpm2" }
tpm2-client = { path = "$repo/crates/tpm2-client" }
tpm2-impl = { path = "$repo/crates/tpm2-impl" }
tpm2-rs-base = { path = "$repo/base" }
tpm2-rs-marshalable = { path = "$repo/marshalable" }
EOF
cp "$repo/rust-toolchain.toml" "$d/"; cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> build.log || { cat build.log; exit 4; }
cd "$d" && timeout 120 ./target/debug/demo
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = scratch()
    r = d + "/repo"
    for b in ns["BUGS"]:
        sh("git checkout -q -- .", cwd=r)
        for f, old, new in b["edits"]:
            t = open(f"{r}/{f}").read()
            assert t.count(old) >= 1, (b["id"], f, old)
            if t.count(old) > 1 and not b.get("all"):
                assert False, (b["id"], "ambiguous", old)
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=r).stdout
        o = f"{SEEDED}/{b['id']}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)
        open(o + "/meta.json", "a").write("\n")
    shutil.rmtree(d)

def results(r):
    # /opt/vp/test.sh works on /repo only, so parse cargo's output here.
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=r, env=env)
    out = p.stdout + p.stderr
    ok = len(re.findall(r"^test .* ok$", out, re.M))
    bad = re.findall(r"^test (.*) FAILED$", out, re.M)
    return p.returncode, ok, bad, out

def validate(ids):
    d = scratch()
    r = d + "/repo"
    for i in ids:
        o = f"{SEEDED}/{i}"
        sh("git checkout -q -- .", cwd=r)
        demo = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
        sh(f"cp {o}/*.sh {o}/*.rs {demo}/")
        t = time.time()
        a = sh(f"bash {demo}/demo.sh", cwd=r)
        t = time.time() - t
        ap = sh(f"git apply {o}/patch.diff", cwd=r)
        rc, ok, bad, out = results(r)
        b = sh(f"bash {demo}/demo.sh", cwd=r)
        good = a.returncode == 0 and ap.returncode == 0 and rc == 0 and b.returncode not in (0, 3, 4)
        print(f"{'GOOD' if good else 'BAD '} {i}: demo clean {a.returncode} ({t:.0f}s) patched {b.returncode}; apply {ap.returncode}; tests rc {rc} ok {ok} failed {bad}", flush=True)
        if not good:
            print(a.stdout[-800:], a.stderr[-800:], ap.stderr[-500:], b.stdout[-500:], b.stderr[-1500:], out[-1500:] if rc else "")
        shutil.rmtree(demo)
    shutil.rmtree(d)

def check(ids, others=()):
    for i in ids:
        o = f"{SEEDED}/{i}"
        prop = json.load(open(o + "/meta.json"))["property"]
        assert not sh("git -C /repo status --porcelain").stdout
        sh(f"git -C /repo apply {o}/patch.diff")
        try:
            for p in [prop, *others]:
                t = time.time()
                env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
                c = sh(f"python3 /verif/run.py {p} quick", env=env)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print(f"{'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {i} {p}: exit {c.returncode} {time.time()-t:.0f}s {v[:1]}", flush=True)
                if p == prop:
                    f = "/verif/tools/results.json"
                    r = json.load(open(f)) if os.path.exists(f) else {}
                    r[i] = (re.sub(r"-[^-]*-\d+\.json$", "", v[0].split(prop + "-", 1)[-1]) if v else "yes") if c.returncode == 1 else "no"
                    json.dump(r, open(f, "w"), indent=1, sort_keys=True)
                if c.returncode not in (0, 1):
                    print(c.stdout[-1500:], c.stderr[-1500:])
        finally:
            sh("git -C /repo checkout -q -- .")

a = sys.argv[1:]
ids = a[1:] or sorted(x for x in os.listdir(SEEDED) if os.path.isdir(f"{SEEDED}/{x}"))
{"make": lambda: [make(s) for s in a[1:]], "validate": lambda: validate(ids), "check": lambda: check(ids)}[a[0]]()
