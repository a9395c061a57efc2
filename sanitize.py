"""C22: the workloads under an interpreter that checks every memory access (Miri:
undefined behaviour, uninitialised reads, data races, leaks) and under
AddressSanitizer, both with overflow checks and debug assertions."""
import concurrent.futures as cf
import json, os, re, shutil, tempfile, time

MIRI = "nightly"
# (binary, property, tier)
QUICK = [("ub", "C22", "quick")] + [(b, p, "quick") for b, ps in {
    "wire": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C23"], "client": ["C08", "C09", "C10"],
    "server": ["C14", "C15", "C16", "C17"], "corecrate": ["C20"], "system": ["C24", "C25"], "tcp": ["C11", "C12", "C13"]}.items() for p in ps]
QUICK += [("corecrate", "C18", "tiny"), ("wire", "C19", "tiny"), ("wire", "C21", "tiny")]
# Panics that report an overflow or an attempt to leave an object.
BAD_PANIC = re.compile(r"attempt to |overflow|out of bounds|out of range|unsafe precondition|range (?:end|start) index|slice index|mid > len"
                       r"|slice length|misaligned|null pointer|invalid (?:enum|value)|unreachable|is not a char boundary|index is")
BLAME = re.compile(r"AddressSanitizer|Undefined Behavior|memory leaked|[Dd]ata race|unsafe precondition|stack overflow|overflowed its stack")


def miri_env(R, **kw):
    flags = "-Zmiri-disable-isolation " + kw.pop("flags", "")
    return R.env(RUSTUP_TOOLCHAIN=MIRI, MIRIFLAGS=flags.strip(), CARGO_TARGET_DIR=os.path.join(R.HARNESS, "target/miri"), **kw)


# Features, by tool: reduced when user types with derived codecs do not compile.
FEATURES = {"asan": [], "miri": []}


def miri_cmd(b, prop, seed, out, case=None):
    return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", *FEATURES["miri"], "--bin", b, prop, "tiny", str(seed), out] + ([case] if case else [])


def asan_env(R, **kw):
    return R.env(RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR=os.path.join(R.HARNESS, "target/asan"),
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0", **kw)


def asan_bin(R, b):
    return os.path.join(R.HARNESS, "target/asan/x86_64-unknown-linux-gnu/debug", b)


def build(R, which):
    if which == "asan":
        e = asan_env(R)
        R.refresh(e["CARGO_TARGET_DIR"], e)
        rc, out = R.run(["cargo", "build", "--offline", "--locked", "--bins", *FEATURES["asan"], "--target", "x86_64-unknown-linux-gnu"], 800, e, R.HARNESS)
    else:
        e = miri_env(R, VERIF_SHARD="0/1000000000")
        R.refresh(e["CARGO_TARGET_DIR"], e)
        rc, out = R.run(miri_cmd("ub", "C22", 1, "-"), 800, e, R.HARNESS)
        if rc == 0:
            rc, out = R.run(miri_cmd("system", "none", 1, "-"), 800, e, R.HARNESS)
            rc = 0 if "unknown property" in out else rc
    if rc != 0 and not FEATURES[which] and "could not compile" in out:
        FEATURES[which] = R.REDUCED
        return build(R, which)
    # A crash of the single case that Miri's build runs is a finding, not a failed build.
    if rc != 0 and not BLAME.search(out):
        print(out[-6000:])
        raise R.NoVerdict(f"the {which} build fails")


def violation(where, b, prop, tier, case, sig, detail, **kw):
    sec, idx = case.rsplit(":", 1) if case else ("process", "0")
    return {"where": where, "bin": b, "prop": prop, "tier": tier, "section": sec, "index": int(idx), "sig": sig, "detail": detail[-3000:], **kw}


def panics(res, where, b, prop, tier, **kw):
    return [violation(where, b, prop, tier, f"{v['section']}:{v['index']}", "overflow" if "overflow" in v["detail"] else v["sig"], v["detail"], **kw)
            for v in res["violations"] if v["sig"] == "leak" or ("panic" in v["sig"] and BAD_PANIC.search(v["detail"]) and not re.search(r" at src/", v["detail"]))]


def reason(out):
    m = re.search(r"^(error: .*|.*ERROR: AddressSanitizer.*|.*panicked at.*\n.*|.*overflowed its stack.*)$", out, re.M)
    at = m.start() if m else max(0, len(out) - 1500)
    return out[at:at + 1500]


def miri_run(R, b, prop, seed, shard, flags="", rounds=False, timeout=800):
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        res, j = os.path.join(tmp, "out.json"), os.path.join(tmp, "journal")
        extra = {"VERIF_ROUNDS": "1"} if rounds else {}
        e = miri_env(R, flags=flags, VERIF_SHARD=shard, VERIF_JOURNAL=j, TMPDIR=tmp, **extra)
        rc, out = R.run(miri_cmd(b, prop, seed, res), timeout, e, R.HARNESS)
        kw = {"flags": flags, "wseed": seed}
        if rc is None:
            raise R.NoVerdict("watchdog: Miri did not finish")
        r = json.load(open(res)) if os.path.exists(res) else None
        if rc in (0, 1, 2) and r is not None and "Undefined Behavior" not in out and "memory leaked" not in out:
            return r, panics(r, "miri", b, prop, "tiny", **kw)
        case = open(j).read().strip() if os.path.exists(j) and r is None else None
        if "unsupported operation" in out:
            print(out[-3000:])
            raise R.NoVerdict("Miri cannot run this")
        if not BLAME.search(out) and rc in (0, 1, 2):
            print(out[-3000:])
            raise R.NoVerdict(f"Miri ended with {rc}")
        text = reason(out)
        sig = ("leak" if "memory leaked" in text else "data-race" if "ata race" in text else "undefined-behaviour")
        return r, [violation("miri", b, prop, "tiny", case, sig, text, **kw)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def asan_run(R, b, prop, tier, seed, div):
    e = asan_env(R, **({"VERIF_DIV": str(div)} if div > 1 else {}))
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        e = {**e, "TMPDIR": tmp, "VERIF_SCRATCH": tmp}
        res = os.path.join(tmp, "out.json")
        rc, out = R.run([asan_bin(R, b), prop, tier, str(seed), res], 3600 if tier == "thorough" else 500, e)
        if rc is None:
            raise R.NoVerdict(f"watchdog: {prop} under AddressSanitizer did not finish")
        if rc in (0, 1, 2) and os.path.exists(res):
            r = json.load(open(res))
            return r, panics(r, "asan", b, prop, tier, wseed=seed, div=div)
        if rc == 78:
            return None, []  # a hang is another property's business
        got = R.journal_case(asan_bin(R, b), prop, tier, seed, tmp, e)
        if got:
            case, rc2, out2 = got
            return None, [violation("asan", b, prop, tier, case, "memory-error", reason(out2), wseed=seed, div=div)]
        if BLAME.search(out):
            return None, [violation("asan", b, prop, tier, None, "memory-error", reason(out), wseed=seed, div=div)]
        print(out[-3000:])
        raise R.NoVerdict(f"{prop} under AddressSanitizer ended with {rc}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(tier, seed, R):
    thorough = tier == "thorough"
    t0 = time.time()
    cpus = min(8, os.cpu_count() or 4)
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(build, R, w) for w in ("asan", "miri")]:
            f.result()
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "events": {}, "sections": {}, "violations": [], "inconclusive": [],
             "assumptions": ["Miri interprets the crates with a nightly compiler, AddressSanitizer instruments them but not the prebuilt standard library",
                             "code behind TCP sockets and child processes runs under AddressSanitizer only",
                             "of the panics only arithmetic overflows and refused out-of-bounds accesses count here"],
             "exhaustive": False, "extra": {"runs": []}}

    def add(where, prop, r, vs, **kw):
        total["violations"] += vs
        total["extra"]["runs"].append({"tool": where, "workload": prop, "evaluations": r["evaluations"] if r else 0, **kw})
        if r:
            total["evaluations"] += r["evaluations"]
            total["distinct_nontrivial"] += r["distinct_nontrivial"]
            total["events"][f"{where}:{prop}"] = total["events"].get(f"{where}:{prop}", 0) + r["evaluations"]
            for k, n in r["sections"].items():
                total["sections"][f"{where}:{prop}:{k}"] = n
            if len(total["samples"]) < 12:
                total["samples"] += [f"{where} {prop}: {s}" for s in r["samples"][:2]]

    with cf.ThreadPoolExecutor(cpus) as ex:
        jobs = []
        for s in range(4 if thorough else 1):
            for i in range(cpus):
                jobs.append((("ub", "C22", seed + 1000 * s), ex.submit(miri_run, R, "ub", "C22", seed + 1000 * s, f"{i}/{cpus}", "", thorough, 7200)))
        # Schedules are a function of Miri's seed; more switches than by default.
        for k in range(48 if thorough else 6):
            f = f"-Zmiri-seed={seed * 100 + k} -Zmiri-preemption-rate=0.05"
            jobs.append((("system", "C25", seed + k), ex.submit(miri_run, R, "system", "C25", seed + k, "0/1", f, False, 3600)))
        if thorough:
            for i in range(cpus):
                jobs.append((("ub", "C22", seed), ex.submit(miri_run, R, "ub", "C22", seed, f"{i}/{cpus}", "-Zmiri-tree-borrows", False, 7200)))
            for b, p in [("corecrate", "C18"), ("wire", "C19"), ("client", "C08"), ("client", "C09"), ("system", "C24")]:
                jobs.append(((b, p, seed), ex.submit(miri_run, R, b, p, seed, "0/1", "", False, 7200)))
        for (b, p, s), f in jobs:
            r, vs = f.result()
            add("miri", p, r, vs, seed=s)
    div = 1 if thorough else 4
    for s in range(6 if thorough else 1):
        for b, p, t in QUICK:
            if p == "C23" and FEATURES["asan"]:
                continue
            r, vs = asan_run(R, b, p, t, seed + s, div if b != "ub" else 1)
            add("asan", p, r, vs, seed=seed + s)
    print(f"{total['evaluations']} observed evaluations, {len(total['violations'])} findings, {time.time() - t0:.0f} s")
    for v in total["violations"]:
        print(f"  {v['sig']} {v['where']} {v['bin']} {v['section']}:{v['index']}: {v['detail'][:600]}")
    # One per signature and workload.
    seen, out = set(), []
    for v in total["violations"]:
        k = (v["sig"], v["where"], v["prop"])
        if k not in seen:
            seen.add(k)
            out.append(v)
    total["violations"] = out
    total["rule"] = ("executions of the public operations under Miri (exact bounds, initialisation, aliasing, validity, data races, leaks) and "
                     "under AddressSanitizer, with overflow checks and an allocator that balances every operation; distinct inputs as counted by each workload")
    total["wall_s"] = time.time() - t0
    if not total["violations"]:
        for k in ("miri:C22", "miri:C25", "asan:C22", "asan:C01", "asan:C09", "asan:C14", "asan:C11"):
            if total["events"].get(k, 0) < 50:
                total["inconclusive"].append(f"observed {total['events'].get(k, 0)} of {k}")
    return total


def replay(r, R):
    case = None if r["section"] == "process" else f"{r['section']}:{r['index']}"
    if r["where"] == "miri":
        build(R, "miri")
        rc, out = R.run(miri_cmd(r["bin"], r["prop"], r["wseed"], "-", case), 1800, miri_env(R, flags=r.get("flags", "")), R.HARNESS)
    else:
        build(R, "asan")
        e = asan_env(R, **({"VERIF_DIV": str(r["div"])} if r.get("div", 1) > 1 else {}))
        tmp = tempfile.mkdtemp(prefix="tpmcheck-")
        try:
            rc, out = R.run([asan_bin(R, r["bin"]), r["prop"], r["tier"], str(r["wseed"]), "-"] + ([case] if case else []), 1800,
                            {**e, "TMPDIR": tmp, "VERIF_SCRATCH": tmp})
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print(out)
    return 0 if rc == 0 else 1
