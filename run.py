#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  run.py PROP quick|thorough     decide the property, write evidence/PROP.json
  run.py replay FILE             re-run the single case of a replay file
  run.py build                   build the harness only

Exit 0: held on everything observed (known findings are printed). Exit 1: a
violation that KNOWN_FINDINGS.txt does not list. Exit 2: no verdict.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TOOLCHAIN = "nightly-2026-05-14"

BINS = {
    "wire": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19", "C21", "C23", "C29"],
    "client": ["C08", "C09", "C10"],
    "tcp": ["C11", "C12", "C13"],
    "server": ["C14", "C15", "C16", "C17"],
    "corecrate": ["C18", "C20"],
    "system": ["C24", "C25"],
    "lean": ["C28"],
}
BIN = {p: b for b, ps in BINS.items() for p in ps}
CRATES = ["tpm2", "tpm2-client", "tpm2-impl", "tpm2-rs-base", "tpm2-rs-marshalable", "tpm2-rs-marshalable-derive", "tpmcheck"]
LEVEL = {"C12": "fault_enumeration", "C13": "fault_enumeration", "C16": "fault_enumeration"}
# What is left of the harness when user types with derived codecs do not compile.
REDUCED = ["--no-default-features", "--features", "net"]
WATCHDOG = {"quick": 700, "thorough": 4 * 3600}


class NoVerdict(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, timeout, e, cwd=ROOT):
    """Runs in its own process group, which is ended afterwards."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def refresh(target, e, cwd=HARNESS):
    """Discards what was built from other contents of /repo: cargo only looks
    at time stamps, which need not change when the contents do."""
    h = hashlib.sha256()
    top = "/repo"
    for base, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    stamp = os.path.join(target, "repo.sha256")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    if os.path.isdir(target):
        cmd = ["cargo", "clean", "--offline", "--target-dir", target]
        for p in CRATES[:-1] + [os.path.basename(cwd) if cwd != HARNESS else CRATES[-1]]:
            cmd += ["-p", p]
        run(cmd, 120, e, cwd)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def uncompiled(out):
    """The verdict on user types whose derived codecs do not compile."""
    at = max(0, out.find("\nerror"))
    return {"evaluations": 1, "distinct_nontrivial": 1, "rule": "user types with derived codecs are compiled", "exhaustive": False,
            "samples": [], "assumptions": [], "events": {}, "sections": {}, "inconclusive": [], "wall_s": 0,
            "violations": [{"sig": "does-not-compile", "section": "build", "index": 0,
                            "detail": "user types with derived codecs do not compile: " + out[at:at + 3000]}]}


def cargo_build(bins, e, extra=(), cwd=HARNESS):
    """Returns the errors of user types with derived codecs, if only those fail."""
    refresh(os.path.join(cwd, "target"), e, cwd)
    cmd = ["cargo", "build", "--offline", "--locked", *extra]
    for b in bins:
        cmd += ["--bin", b]
    rc, out = run(cmd, 800, e, cwd)
    if rc == 0:
        return None
    if run(cmd + REDUCED, 800, e, cwd)[0] == 0:
        return out
    print(out[-6000:])
    raise NoVerdict("the harness does not build")


def known(prop):
    """Listed findings of the property: signature -> description."""
    d = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3).strip()
    return d


def write_replay(prop, tier, seed, v, kind):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}-{v['sig']}-{v['section']}-{v['index']}")[:150] + ".json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "kind": kind, **v}, f, indent=1)
    return path


def journal_case(binary, prop, tier, seed, tmp, e):
    """Finds and confirms the single case that ends the process abnormally."""
    j = os.path.join(tmp, "journal")
    rc, out = run([binary, prop, tier, str(seed), "-"], 1800, {**e, "VERIF_JOURNAL": j})
    if rc is None or (rc >= 0 and rc != 78) or not os.path.exists(j):
        return None
    case = open(j).read().strip()
    rc2, out2 = run([binary, prop, tier, str(seed), "-", case], 600, e)
    if rc2 is not None and (rc2 < 0 or rc2 == 78):
        return case, rc2, out2
    return None


def monitor(binary, prop, tier, seed, e, kind="plain", prefix=""):
    """Runs one monitor binary; returns its result record."""
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        e = {**e, "TMPDIR": tmp, "VERIF_SCRATCH": tmp}
        res = os.path.join(tmp, "out.json")
        rc, out = run([binary, prop, tier, str(seed), res], WATCHDOG[tier if tier != "tiny" else "quick"], e)
        print(prefix + out[-5000:].rstrip())
        if rc is None:
            raise NoVerdict("watchdog: the workload did not finish")
        if rc in (0, 1, 2) and os.path.exists(res):
            return json.load(open(res))
        if rc < 0 or rc == 78:
            m = re.search(r"^(HANG|STUCK) (\S+):(\d+)$", out, re.M)
            if rc == 78 and m and m.group(1) == "STUCK":
                # Every thread was waiting and none can run again: that is final, and may depend on the schedule.
                got = (f"{m.group(2)}:{m.group(3)}", 78, out)
            elif rc == 78 and m:
                case = f"{m.group(2)}:{m.group(3)}"
                rc2, out2 = run([binary, prop, tier, str(seed), "-", case], 600, e)
                got = (case, rc2, out2) if rc2 == 78 else None
            else:
                got = journal_case(binary, prop, tier, seed, tmp, e)
            if got:
                case, rc2, out2 = got
                sec, idx = case.rsplit(":", 1)
                what = "does not terminate" if rc2 == 78 else f"is ended by signal {-rc2}"
                return {"evaluations": 1, "distinct_nontrivial": 1, "rule": "", "exhaustive": False, "samples": [],
                        "assumptions": [], "events": {}, "sections": {}, "inconclusive": [], "wall_s": 0,
                        "violations": [{"sig": "hang" if rc2 == 78 else "crash", "section": sec, "index": int(idx),
                                        "detail": f"the process {what}: {out2[-1500:]}"}]}
        raise NoVerdict(f"monitor ended with {rc}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


GEN = os.path.join(ROOT, "gen")


def refusals():
    sys.path.append(GEN)
    import refuse
    cargo_build([], env(), ["--lib"])
    return refuse


def gen_build(gseed):
    """Builds the monitor of one generation of random type definitions."""
    d = os.path.join(HARNESS, "target", "gen", str(gseed))
    os.makedirs(d, exist_ok=True)
    rc, out = run([sys.executable, os.path.join(GEN, "definitions.py"), str(gseed), "150", os.path.join(d, "types.rs")], 60, env())
    if rc != 0:
        raise NoVerdict("no definitions: " + out[-500:])
    target = os.path.join(HARNESS, "target")
    rc, out = run(["cargo", "build", "--offline", "--locked", "--bin", "tpmgen", "--target-dir", target], 600, env(TPMGEN=d), GEN)
    if rc != 0 and not re.search(r"--> \S*/types\.rs:\d+", out):
        print(out[-3000:])
        raise NoVerdict("the generated monitor does not build")
    return os.path.join(target, "debug", "tpmgen"), None if rc == 0 else out


def merge(r, x):
    """Adds the observations of another monitor run."""
    for k in ("evaluations", "distinct_nontrivial", "wall_s"):
        r[k] += x[k]
    for k in ("events", "sections"):
        for n, v in x[k].items():
            r[k][n] = r[k].get(n, 0) + v if isinstance(v, (int, float)) else v
    r["violations"] += x["violations"]
    r["inconclusive"] += x["inconclusive"]
    r["samples"] = (r["samples"] + x["samples"])[:12]


def generations(r, tier, seed):
    """C23 on random type definitions."""
    r["rule"] += "; the same for randomly generated definitions"
    n = 3 if tier == "quick" else 40
    for g in range(n):
        gseed = seed * 1000 + g
        b, failed = gen_build(gseed)
        if failed:
            print(failed[-4000:])
            x = uncompiled(failed)
        else:
            x = monitor(b, "C23", tier, seed, env())
        for v in x["violations"]:
            v["gen"] = gseed
        merge(r, x)
        if r["violations"]:
            break
    r["events"]["generations-of-types"] = g + 1


FREE = os.path.join(ROOT, "freestanding")


def freestanding():
    """Builds the program without standard library and allocator: (its path, errors of the crates)."""
    target = os.path.join(HARNESS, "target", "freestanding")
    refresh(target, env(), FREE)
    rc, out = run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", target], 600, env(), FREE)
    if rc == 0:
        return os.path.join(target, "release", "freestanding"), None
    print(out[-4000:])
    if re.search(r"could not compile `tpm2|no global memory allocator|panic_impl|can't find crate for `std`|__rust_(alloc|no_alloc)|duplicate lang item|"
                 r"undefined symbol: .*(alloc|std)", out):
        return None, out
    raise NoVerdict("the freestanding program does not build")


def bare(tier, seed):
    """C28."""
    cargo_build(["lean"], env())
    b, failed = freestanding()
    r = monitor(os.path.join(HARNESS, "target/debug/lean"), "C28", tier, seed, env(VERIF_FREESTANDING=b) if b else env())
    if failed:
        x = uncompiled(failed)
        x["violations"][0].update(sig="needs-std", detail="a program without std and allocator does not build: " + x["violations"][0]["detail"])
        merge(r, x)
    r["assumptions"].append("x86-64 Linux stands in for a machine without operating system: the program links against the C library for its start and for read, write and exit only.")
    return r


def decide(prop, tier, seed):
    if prop == "C28":
        return bare(tier, seed)
    if prop == "C22":
        import sanitize
        return sanitize.decide(tier, seed, sys.modules[__name__])
    if prop == "C27":
        import portable
        return portable.decide(sys.modules[__name__], tier, seed)
    if prop == "C26":
        return refusals().decide(sys.modules[__name__], tier, seed)
    b = BIN[prop]
    failed = cargo_build([b], env())
    if failed and prop == "C23":
        print(failed[-4000:])
        return uncompiled(failed)
    r = monitor(os.path.join(HARNESS, "target/debug", b), prop, tier, seed, env())
    if prop == "C23" and not r["violations"]:
        generations(r, tier, seed)
    return r


def main(argv):
    t0 = time.time()
    if argv[:1] == ["build"]:
        cargo_build([], env(), ["--bins"])
        import sanitize
        for w in ("asan", "miri"):
            sanitize.build(sys.modules[__name__], w)
        import portable
        for w in (*portable.NATIVE, *portable.HOSTS):
            portable.build(sys.modules[__name__], w)
        freestanding()
        return 0
    if argv[:1] == ["replay"]:
        r = json.load(open(argv[1]))
        prop, seed, case = r["property"], r["seed"], f"{r['section']}:{r['index']}"
        if prop == "C22":
            import sanitize
            return sanitize.replay(r, sys.modules[__name__])
        if prop == "C27":
            import portable
            return portable.replay(sys.modules[__name__], r)
        if prop == "C26":
            return refusals().replay(sys.modules[__name__], r)
        failed = cargo_build([BIN[prop]], env())
        if failed and prop == "C23":
            print(failed)
            return 1
        b = os.path.join(HARNESS, "target/debug", BIN[prop])
        if "gen" in r:
            b, failed = gen_build(r["gen"])
            if failed:
                print(failed)
                return 1
        free = {}
        if prop == "C28":
            f, failed = freestanding()
            if failed:
                return 1
            free["VERIF_FREESTANDING"] = f
        tmp = tempfile.mkdtemp(prefix="tpmcheck-")
        try:
            rc, out = run([b, prop, r["tier"], str(seed), "-", case], 900, env(TMPDIR=tmp, VERIF_SCRATCH=tmp, **free))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(out)
        return 0 if rc == 0 else 1 if rc == 1 or rc == 78 or (rc is not None and rc < 0) else 2
    prop, tier = argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        r = decide(prop, tier, seed)
    except NoVerdict as x:
        print(f"NO VERDICT property={prop}: {x}")
        return 2
    listed = known(prop)
    new = [v for v in r["violations"] if v["sig"] not in listed]
    seen = {}
    for v in r["violations"]:
        if v["sig"] in listed:
            seen.setdefault(v["sig"], v)
    for sig, v in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} {listed[sig]}")
    level = LEVEL.get(prop, "exploration")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {k: r[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "exhaustive")},
        "assumptions": r["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    ev["coverage"]["events"] = r["events"]
    ev["coverage"]["sections"] = r["sections"]
    ev["coverage"].update(r.get("extra", {}))
    if level == "fault_enumeration":
        ev["coverage"]["faults_injected"] = sum(v for k, v in r["events"].items() if k.startswith("fault"))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in new:
        p = write_replay(prop, tier, seed, v, r.get("kind", "plain"))
        print(f"VIOLATION property={prop} replay={p}")
    if new:
        return 1
    if r["inconclusive"]:
        print(f"NO VERDICT property={prop}: {r['inconclusive']}")
        return 2
    return 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.exit(main(sys.argv[1:]))
