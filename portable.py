"""C27: the same behaviour whatever the build and the host. Transcripts of what the
public operations were seen to do are recorded by the build the other checks use and by
an optimised build without debug assertions and overflow checks, by one without the
optional features (std, TCP), and, interpreted by Miri, on a big-endian and on a 32-bit
host; then they are compared case by case. The
monitors of the other properties also run on the optimised build."""
import concurrent.futures as cf
import json, os, re, shutil, tempfile, time

MIRI = "nightly"
HOSTS = {"big-endian": "s390x-unknown-linux-gnu", "32-bit": "i686-unknown-linux-gnu"}
# What is decided by the memory layout of the host: the capacity of these buffers.
LAYOUT = {"32-bit": {"codec Tpm2bAttest", "buffer Tpm2bAttest", "codec DBufDeep"}, "lean": {"std errors"}}
NATIVE = {"release": ["--release"], "lean": ["--no-default-features"]}
MONITORS = [(b, p) for b, ps in {
    "wire": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C23"], "client": ["C08", "C09", "C10"], "server": ["C14", "C15", "C16", "C17"],
    "corecrate": ["C20"], "tcp": ["C11", "C12", "C13"], "system": ["C24", "C25"]}.items() for p in ps]
TINY = [("corecrate", "C18"), ("wire", "C19"), ("wire", "C21")]
INTERPRETED = [("wire", "C01"), ("wire", "C02"), ("wire", "C03"), ("wire", "C04"), ("wire", "C06"), ("wire", "C07"), ("wire", "C19"),
               ("wire", "C21"), ("client", "C08"), ("client", "C09"), ("client", "C10"), ("server", "C16"), ("server", "C17"),
               ("corecrate", "C18"), ("corecrate", "C20"), ("system", "C24")]
# Monitors that need none of the optional features.
LEAN = [(b, p) for b, p in MONITORS if b not in ("tcp", "system")] + TINY
DERIVED = {"release": True, "lean": True, "big-endian": True, "32-bit": True}


def features(R, where):
    if where == "lean":
        return ["--features", "derived"] if DERIVED[where] else []
    return [] if DERIVED[where] else R.REDUCED


class Unbuildable(Exception):
    """The crates do not compile in a build in which they should."""


def target_dir(R, where):
    return os.path.join(R.HARNESS, "target", "port-" + where)


def env(R, where, **kw):
    if where in HOSTS:
        return R.env(RUSTUP_TOOLCHAIN=MIRI, CARGO_TARGET_DIR=target_dir(R, where), XDG_CACHE_HOME=os.path.join(target_dir(R, where), "cache"),
                     MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation", VERIF_SLOW="1", **kw)
    return R.env(CARGO_TARGET_DIR=target_dir(R, where) if where in NATIVE else os.path.join(R.HARNESS, "target"), **kw)


def command(R, where, b, *args):
    if where in HOSTS:
        return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", *features(R, where), "--target", HOSTS[where], "--bin", b, *args]
    kind = "release" if where == "release" else "debug"
    return [os.path.join(target_dir(R, where) if where in NATIVE else os.path.join(R.HARNESS, "target"), kind, b), *args]


def build(R, where):
    if where == "debug":
        return R.cargo_build([], R.env(), ["--bins"])
    e = env(R, where)
    R.refresh(e["CARGO_TARGET_DIR"], e)
    if where in NATIVE:
        rc, out = R.run(["cargo", "build", *NATIVE[where], "--offline", "--locked", "--bins", *features(R, where)], 800, e, R.HARNESS)
    else:
        rc, out = R.run(["cargo", "miri", "setup", "--target", HOSTS[where]], 800, e, R.HARNESS)
        if rc == 0:
            rc, out = R.run(command(R, where, "ub", "C27", "tiny", "1", "-"), 800, {**e, "VERIF_SHARD": "0/1000000000", "VERIF_ROUNDS": "1"}, R.HARNESS)
        if rc not in (0, None) and re.search(r"^evaluations=", out, re.M):
            rc = 0
    if rc != 0 and DERIVED[where] and "could not compile `tpmcheck`" in out:
        DERIVED[where] = False
        return build(R, where)
    if rc != 0 and re.search(r"could not compile `tpm2", out) and where != "debug":
        raise Unbuildable(out[max(0, out.find("\nerror")):][:3000])
    if rc != 0:
        print(out[-6000:])
        raise R.NoVerdict(f"the build `{where}` fails")


def transcript(R, where, seed, rounds, shard=None, slow=False, timeout=800):
    """What one build was seen to do: {case: (operation, observations, hash)} and its result record."""
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        t, res = os.path.join(tmp, "trace"), os.path.join(tmp, "out.json")
        e = env(R, where, VERIF_ROUNDS=str(rounds), VERIF_TRACE=t, TMPDIR=tmp)
        if shard:
            e["VERIF_SHARD"] = shard
        if slow:
            e["VERIF_SLOW"] = "1"
        rc, out = R.run(command(R, where, "ub", "C27", "tiny", str(seed), res), timeout, e, R.HARNESS)
        if rc is None:
            raise R.NoVerdict(f"watchdog: the transcript of {where} did not finish")
        if not os.path.exists(t) or not os.path.exists(res):
            return None, out
        d = {}
        for line in open(t).read().splitlines():
            i, name, n, h = line.split("\t")
            d[int(i)] = (name, int(n), h)
        return d, json.load(open(res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def seen(R, where, seed, case, rounds, slow):
    e = env(R, where, VERIF_ROUNDS=str(rounds))
    if slow:
        e["VERIF_SLOW"] = "1"
    rc, out = R.run(command(R, where, "ub", "C27", "tiny", str(seed), "-", f"operations:{case}"), 900, e, R.HARNESS)
    return re.findall(r"^SEEN \d+ (.*)$", out, re.M) if rc is not None else None


def first_difference(R, where, seed, case, rounds, slow):
    a, b = seen(R, "debug", seed, case, rounds, slow), seen(R, where, seed, case, rounds, slow)
    if a is None or b is None or a == b:
        return None
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    at = lambda v: v[k] if k < len(v) else "(nothing)"
    return f"observation {k} of {len(a)}: {at(a)[:700]} here, {at(b)[:700]} on {where}; before it: {a[max(0, k - 2):k]!r:.400}"


def compare(R, where, seed, rounds, slow, base, other, total):
    """Differing cases, one per operation, each confirmed by running it again."""
    out, done = [], set()
    skip = LAYOUT.get(where, set())
    for i in sorted(base):
        name = base[i][0]
        if name in skip:
            total["events"]["skipped-for-layout"] = total["events"].get("skipped-for-layout", 0) + 1
            continue
        if i not in other:
            continue
        total["evaluations"] += 1
        total["distinct_nontrivial"] += 1
        total["events"][f"{where}:{name.split()[0]}"] = total["events"].get(f"{where}:{name.split()[0]}", 0) + 1
        total["events"]["observations"] = total["events"].get("observations", 0) + base[i][1]
        if base[i] == other[i] or name in done or len(out) >= 6:
            continue
        d = first_difference(R, where, seed, i, rounds, slow)
        if d:
            done.add(name)
            out.append({"where": where, "sig": "differs", "section": "operations", "index": i, "wseed": seed, "rounds": rounds, "slow": slow,
                        "detail": f"{name}: {d}"})
    return out


def native_monitor(R, where, b, p, tier, seed, div, listed):
    """A monitor of another property on the optimised or on the lean build."""
    e = env(R, where, **({"VERIF_DIV": str(div)} if div > 1 else {}))
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        e = {**e, "TMPDIR": tmp, "VERIF_SCRATCH": tmp}
        res = os.path.join(tmp, "out.json")
        binary = command(R, where, b)[0]
        rc, out = R.run([binary, p, tier, str(seed), res], 600 if tier != "thorough" else 7200, e)
        kw = {"where": where, "bin": b, "prop": p, "tier": tier, "wseed": seed, "div": div}
        if rc is None:
            raise R.NoVerdict(f"watchdog: {p} on the build `{where}` did not finish")
        if rc in (0, 1, 2) and os.path.exists(res):
            r = json.load(open(res))
            return r, [{**v, **kw, "sig": f"{p}:{v['sig']}"} for v in r["violations"] if v["sig"] not in listed(p)]
        got = R.journal_case(binary, p, tier, seed, tmp, e)
        if got:
            sec, idx = got[0].rsplit(":", 1)
            return None, [{**kw, "sig": f"{p}:crash", "section": sec, "index": int(idx), "detail": got[2][-1500:]}]
        m = re.search(r"^STUCK (\S+):(\d+)$", out, re.M)
        if m:
            return None, [{**kw, "sig": f"{p}:hang", "section": m.group(1), "index": int(m.group(2)), "detail": out[-1500:]}]
        print(out[-3000:])
        raise R.NoVerdict(f"{p} on the build `{where}` ended with {rc}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def interpreted_monitor(R, where, b, p, seed, shard, listed):
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        res = os.path.join(tmp, "out.json")
        rc, out = R.run(command(R, where, b, p, "tiny", str(seed), res), 7200, env(R, where, VERIF_SHARD=shard, TMPDIR=tmp), R.HARNESS)
        if rc not in (0, 1, 2) or not os.path.exists(res):
            print(out[-3000:])
            raise R.NoVerdict(f"{p} on a {where} host ended with {rc}")
        r = json.load(open(res))
        return r, [{**v, "where": where, "bin": b, "prop": p, "tier": "tiny", "wseed": seed, "sig": f"{p}:{v['sig']}"}
                   for v in r["violations"] if v["sig"] not in listed(p)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(R, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    cpus = min(8, os.cpu_count() or 4)
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "events": {}, "sections": {}, "violations": [], "inconclusive": [],
             "assumptions": ["the big-endian and the 32-bit host are those Miri interprets (s390x and i686 Linux)",
                             "buffers whose capacity is the size of a structure in memory differ in capacity between hosts and are not compared on the 32-bit one",
                             "code behind TCP sockets and child processes is compared between builds, not between hosts"],
             "exhaustive": False, "extra": {"runs": []}}
    with cf.ThreadPoolExecutor(5) as ex:
        fs = [(w, ex.submit(build, R, w)) for w in ("debug", *NATIVE, *HOSTS)]
        fs[0][1].result()
        for w, f in fs[1:]:
            try:
                f.result()
            except Unbuildable as u:
                total["violations"].append({"where": w, "sig": "does-not-compile", "section": "build", "index": 0, "wseed": seed, "rounds": 1, "slow": False,
                                            "detail": f"the crates do not compile in the build `{w}`: {u}"})
    unbuilt = {v["where"] for v in total["violations"]}
    hosts = [w for w in HOSTS if w not in unbuilt]
    built = time.time() - t0
    # Interpreted hosts.
    rounds = 6 if thorough else 1
    shards = 4 * rounds
    with cf.ThreadPoolExecutor(cpus) as ex:
        for s in range(seed, seed + (4 if thorough else 1)):
            jobs = [(w, ex.submit(transcript, R, w, s, rounds, f"{k}/{shards}", False, 10000 if thorough else 700)) for k in range(shards) for w in hosts]
            base, r = transcript(R, "debug", s, rounds, slow=True)
            if base is None:
                print(r[-3000:])
                raise R.NoVerdict("no transcript of the usual build")
            got = {w: {} for w in hosts}
            for w, f in jobs:
                d, r = f.result()
                if d is None:
                    # An abnormal end (a panic is an observation): only Miri or a hard crash ends that way.
                    print(r[-3000:])
                    total["violations"].append({"where": w, "sig": "crash", "section": "process", "index": 0, "wseed": s, "rounds": rounds, "slow": True,
                                                "detail": r[-1500:]})
                    continue
                got[w].update(d)
            for w in hosts:
                n = total["evaluations"]
                total["violations"] += compare(R, w, s, rounds, True, base, got[w], total)
                total["extra"]["runs"].append({"host": w, "seed": s, "cases_compared": total["evaluations"] - n, "at_s": round(time.time() - t0)})
                if not total["violations"] and len(got[w]) < len(base):
                    total["inconclusive"].append(f"{len(got[w])} of {len(base)} cases observed on the {w} host")
    # The optimised build and the one without optional features.
    rounds = 4000 if thorough else 200
    base, _ = transcript(R, "debug", seed, rounds, timeout=3600)
    for w in NATIVE:
        if w in unbuilt:
            continue
        other, r = transcript(R, w, seed, rounds, timeout=3600)
        if base is None or other is None:
            print(str(r)[-3000:])
            raise R.NoVerdict("no transcript of a native build")
        n = total["evaluations"]
        total["violations"] += compare(R, w, seed, rounds, False, base, other, total)
        total["extra"]["runs"].append({"host": w, "seed": seed, "cases_compared": total["evaluations"] - n, "at_s": round(time.time() - t0)})
    total["samples"] = [f"{base[i][0]}: {base[i][1]} observations, {base[i][2]}" for i in sorted(base)[:4]]

    def record(where, p, r, vs):
        total["violations"] += vs
        if r:
            total["evaluations"] += r["evaluations"]
            total["distinct_nontrivial"] += r["distinct_nontrivial"]
            total["events"][f"{where}:{p}"] = total["events"].get(f"{where}:{p}", 0) + r["evaluations"]
        total["extra"]["runs"].append({"host": where, "workload": p, "evaluations": r["evaluations"] if r else 0, "at_s": round(time.time() - t0)})

    def listed(p):
        return R.known(p)

    for w, b, p in [("release", b, p) for b, p in MONITORS + TINY] + [("lean", b, p) for b, p in LEAN if thorough or p != "C23"]:
        if w in unbuilt or p == "C23" and not DERIVED[w]:
            continue
        t = "tiny" if (b, p) in TINY else "quick"
        record(w, p, *native_monitor(R, w, b, p, t, seed, 1 if thorough else 6 if w == "release" else 20, listed))
    if thorough:
        with cf.ThreadPoolExecutor(cpus) as ex:
            jobs = [(w, p, ex.submit(interpreted_monitor, R, w, b, p, seed, "0/1" if b == "client" else f"{k}/8", listed))
                    for b, p in INTERPRETED for w in hosts for k in range(1 if b == "client" else 8)]
            for w, p, f in jobs:
                record(w, p, *f.result())
    print(f"{total['evaluations']} observed evaluations, {len(total['violations'])} findings, built in {built:.0f} s, {time.time() - t0:.0f} s")
    out, keys = [], set()
    for v in total["violations"]:
        print(f"  {v['sig']} {v['where']} {v['section']}:{v['index']}: {v['detail'][:900]}")
        k = (v["sig"], v["where"], v["detail"].split(":")[0])
        if k not in keys:
            keys.add(k)
            out.append(v)
    total["violations"] = out[:10]
    total["rule"] = ("cases of the public operations whose transcript (results, errors, every destination byte) was compared between two builds or hosts, "
                     "and evaluations of the other properties' monitors on the optimised build; distinct by operation and case")
    total["wall_s"] = time.time() - t0
    if not total["violations"]:
        for k, m in (("release:codec", 1000), ("lean:codec", 1000), ("lean:client", 100), ("lean:server", 100), ("release:client", 100), ("release:server", 100), ("big-endian:codec", 50), ("32-bit:codec", 50),
                     ("big-endian:client", 5), ("big-endian:server", 2), ("observations", 10000)):
            if total["events"].get(k, 0) < m:
                total["inconclusive"].append(f"observed {total['events'].get(k, 0)} of {k}")
    return total


def replay(R, r):
    case = None if r["section"] == "process" else f"{r['section']}:{r['index']}"
    build(R, "debug")
    try:
        build(R, r["where"])
    except Unbuildable as u:
        print(u)
        return 1
    if r["section"] == "build":
        print("it compiles")
        return 0
    if "prop" not in r and case:
        d = first_difference(R, r["where"], r["wseed"], r["index"], r["rounds"], r["slow"])
        print(d or "no difference")
        return 1 if d else 0
    if "prop" not in r:
        d, out = transcript(R, r["where"], r["wseed"], r["rounds"], timeout=7200)
        print(str(out)[-3000:])
        return 1 if d is None else 0
    tmp = tempfile.mkdtemp(prefix="tpmcheck-")
    try:
        e = env(R, r["where"], TMPDIR=tmp, VERIF_SCRATCH=tmp, **({"VERIF_DIV": str(r["div"])} if r.get("div", 1) > 1 else {}))
        rc, out = R.run(command(R, r["where"], r["bin"], r["prop"], r["tier"], str(r["wseed"]), "-", case), 1800, e, R.HARNESS)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(out[-5000:])
    return 0 if rc == 0 else 1
