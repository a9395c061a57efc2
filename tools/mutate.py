#!/usr/bin/env python3
"""Development tool (no check uses it): small mechanical changes to /repo's
sources in scratch copies; those that compile and pass the repository's tests
are shown to the quick checks, and survivors are listed.

  mutate.py list [FILE...]              number of mutants per file
  mutate.py run OUT WORKERS [FILE...]   run, appending JSON lines to OUT
  mutate.py hand OUT WORKERS SPEC.py    the same for the hand-written changes in SPEC: S = [(name, property, [(file, old, new)])]
"""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, threading, time

PROPS = [
    ("marshalable/src/errors.rs", ["C05", "C18"]),
    ("marshalable-derive", ["C23", "C26", "C04", "C05", "C02", "C03", "C01", "C06", "C07"]),
    ("marshalable", ["C23", "C04", "C05", "C02", "C03", "C01", "C06", "C07", "C09"]),
    ("base/src/constants.rs", ["C21", "C19", "C04"]),
    ("base", ["C04", "C05", "C06", "C07", "C02", "C03", "C01", "C19", "C21", "C08", "C09"]),
    ("crates/tpm2-client/src/connection/tcp.rs", ["C12", "C11", "C13", "C25"]),
    ("crates/tpm2-client", ["C08", "C09", "C10", "C24"]),
    ("crates/tpm2-impl", ["C14", "C15", "C16", "C17", "C24", "C25"]),
    ("crates/tpm2", ["C18", "C20", "C21"]),
]
FILES = """marshalable/src/lib.rs marshalable/src/errors.rs marshalable-derive/src/lib.rs base/src/lib.rs base/src/commands.rs
base/src/commands/pcr.rs base/src/commands/capability.rs base/src/commands/random.rs base/src/commands/startup.rs
crates/tpm2-client/src/lib.rs crates/tpm2-client/src/sessions/password.rs crates/tpm2-client/src/sessions/authorization_area/mod.rs
crates/tpm2-client/src/sessions/authorization_area/s1.rs crates/tpm2-client/src/sessions/authorization_area/s2.rs
crates/tpm2-client/src/sessions/authorization_area/s3.rs crates/tpm2-client/src/sessions/nosession.rs crates/tpm2-client/src/connection/tcp.rs
crates/tpm2-impl/src/tpmctx.rs crates/tpm2-impl/src/req_resp.rs crates/tpm2-impl/src/crypto.rs crates/tpm2-impl/src/handler/random.rs
crates/tpm2-impl/src/buffers/inout.rs crates/tpm2-impl/src/buffers/separate.rs crates/tpm2-impl/src/platform/buffer.rs
crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs crates/tpm2-impl/src/platform/crypto/drbg/mod.rs
crates/tpm2-impl/src/platform/crypto/drbg/error.rs
crates/tpm2/src/marshal.rs crates/tpm2/src/tpmi.rs crates/tpm2/src/tpmt.rs crates/tpm2/src/lib.rs crates/tpm2/src/errors/mod.rs
crates/tpm2/src/errors/tss_rc.rs crates/tpm2/src/errors/std.rs crates/tpm2/src/errors/tpm_rc/mod.rs""".split()
OPS = [
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= ", " = "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"to_be_bytes", ["to_le_bytes"]), (r"to_le_bytes", ["to_be_bytes"]),
    (r"from_be_bytes", ["from_le_bytes"]), (r"from_le_bytes", ["from_be_bytes"]),
    (r"\b0x[0-9A-Fa-f_]+\b", ["NUM"]), (r"(?<![\w.#\"])\d+(?![\w.])", ["NUM"]),
    (r"(?<=[\[(])\.\.(?=[a-z])", ["..1 + "]), (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[a-z0-9_]+\])", ["..1 + "]),
    (r"\)\?;$", [").ok();"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\.take\(", [".skip("]),
    (r"\.first\(\)", [".last()"]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" & !", [" & "]),
    (r"Error::(\w+)", ["ERR"]), (r"TpmRcError::(\w+)", ["RC"]), (r"u16::", ["u32::", "u8::"]), (r"u32::", ["u16::"]), (r" as u16", [" as u8 as u16"]),
    (r" as u32", [" as u16 as u32"]), (r" as usize", [" as u8 as usize"]), (r"\.is_err\(\)", [".is_ok()"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"read_exact\(", ["read("]), (r"write_all\(", ["write("]),
]


def mutants(f):
    text = open("/repo/" + f).read()
    lines = text.split("\n")
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        if re.match(r"(#\[cfg\(test\)\]|mod tests)", s):
            break
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "*", "/*", "extern")):
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == "NUM":
                        t = m.group(0)
                        v = int(t.replace("_", ""), 0)
                        new = [hex(v + 1) if t.startswith("0x") else str(v + 1)]
                        if v:
                            new.append(hex(v - 1) if t.startswith("0x") else str(v - 1))
                    elif r == "ERR":
                        new = ["Error::" + x for x in ("UnexpectedEndOfBuffer", "InvalidArrayLength", "UnknownSelector") if x != m.group(1)][:1]
                    elif r == "RC":
                        new = ["TpmRcError::" + ("Memory" if m.group(1) != "Memory" else "CommandSize")]
                    else:
                        new = [r]
                    for x in new:
                        out.append((n, l[:m.start()] + x + l[m.end():]))
        # Statements that do something on their own.
        if s.endswith(";") and not re.match(r"(let|return|pub|const|type|static|fn|break|continue|\}|\))", s) and s.count("(") == s.count(")"):
            out.append((n, ""))
        if re.match(r"return .*;$", s):
            out.append((n, ""))
        # A list of two neighbouring struct fields or arguments in the other order.
        if n + 1 < len(lines) and re.match(r"^\s+(pub )?\w+: .*,$", l) and re.match(r"^\s+(pub )?\w+: .*,$", lines[n + 1]) and l != lines[n + 1]:
            out.append(((n, n + 1), (lines[n + 1], l)))
    return [(f, n, new) for n, new in out]


def apply(repo, m):
    f, n, new = m
    p = f"{repo}/{f}"
    lines = open("/repo/" + f).read().split("\n")
    if isinstance(n, tuple):
        for i, x in zip(n, new):
            lines[i] = x
    else:
        lines[n] = new
    open(p, "w").write("\n".join(lines))
    return p


def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return None, p.communicate()[0]


def worker_dir(i):
    d = f"/tmp/mut/w{i}"
    if not os.path.isdir(d):
        os.makedirs(d)
        run(f"cp -a /repo {d}/repo; mkdir {d}/verif; cp -a /verif/harness /verif/freestanding /verif/gen /verif/*.py /verif/KNOWN_FINDINGS.txt {d}/verif/; rm -rf {d}/verif/harness/target", "/", 300)
        run(f"sed -i 's#/repo#{d}/repo#' verif/harness/Cargo.toml verif/gen/Cargo.toml verif/freestanding/Cargo.toml verif/run.py", d, 20)
    return d


def props(f):
    return next(p for k, p in PROPS if f.startswith(k))


def one(i, m):
    d = worker_dir(i)
    repo = d + "/repo"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    p = apply(repo, m)
    t = time.time()
    try:
        rc, out = run("timeout 150 cargo test --workspace --offline -q 2>&1 -- --test-threads 4", repo, 200, env)
        r = {"file": m[0], "line": m[1], "new": m[2]}
        if rc != 0:
            r["result"] = "uncompilable" if "could not compile" in out else "tests"
            return r
        r["result"], r["by"] = "SURVIVED", None
        for c in props(m[0]):
            rc, out = run(f"python3 run.py {c} quick", d + "/verif", 900, dict(env, VERIF_SEED="1"))
            if rc == 1:
                v = re.search(r"VIOLATION property=\S+ replay=.*/(\S+)\.json", out)
                r.update(result="caught", by=v.group(1) if v else c)
                return r
            if rc not in (0, 1):
                r.setdefault("noanswer", []).append(c)
                r["tail"] = out[-700:]
        return r
    finally:
        r["s"] = round(time.time() - t)
        run(f"git checkout -q -- {m[0]}", d + "/repo", 20)


def hand(i, m):
    name, prop, edits = m
    d = worker_dir(i)
    repo = d + "/repo"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    r = {"name": name, "result": "?"}
    t = time.time()
    try:
        for f, old, new in edits:
            s = open(f"{repo}/{f}").read()
            if s.count(old) < 1:
                r["result"] = "no match"
                return r
            open(f"{repo}/{f}", "w").write(s.replace(old, new, 1))
        rc, out = run("timeout 150 cargo test --workspace --offline -q 2>&1 -- --test-threads 4", repo, 200, env)
        if rc != 0:
            r["result"] = "uncompilable" if "could not compile" in out else "tests"
            r["tail"] = "\n".join(x for x in out.split("\n") if x.startswith("error"))[:500]
            return r
        rc, out = run(f"python3 run.py {prop} quick", d + "/verif", 900, dict(env, VERIF_SEED="1"))
        r["result"] = "caught" if rc == 1 else "MISSED" if rc == 0 else "NOANSWER"
        r["tail"] = out[-300:]
        return r
    finally:
        r["s"] = round(time.time() - t)
        for f, _, _ in edits:
            run(f"git checkout -q -- {f}", repo, 20)


def main():
    a = sys.argv[1:]
    if a[0] == "hand":
        ns = {}
        exec(open(a[3]).read(), ns)
        it, lock = iter(ns["S"]), threading.Lock()

        def loop(i):
            while (m := next(it, None)) is not None:
                x = hand(os.environ.get("MUT_TAG", "h") + str(i), m)
                with lock:
                    print(x["name"], x["result"], x["s"], "" if x["result"] == "caught" else x.get("tail", ""), flush=True)
                    open(a[1], "a").write(json.dumps(x) + "\n")
        ts = [threading.Thread(target=loop, args=(i,)) for i in range(int(a[2]))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return
    files = a[3:] if a[0] == "run" else a[1:]
    files = files or FILES
    ms = [m for f in files for m in mutants(f)]
    if a[0] == "list":
        for f in files:
            print(len(mutants(f)), f)
        print(len(ms))
        return
    out, k = a[1], int(a[2])
    done = {(x["file"], str(x["line"]), str(x["new"])) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    ms = [m for m in ms if (m[0], str(list(m[1]) if isinstance(m[1], tuple) else m[1]), str(list(m[2]) if isinstance(m[2], tuple) else m[2])) not in done]
    random.Random(7).shuffle(ms)
    it = iter(ms)
    lock = threading.Lock()

    def loop(i):
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            r = one(i, m)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=loop, args=(i,)) for i in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
