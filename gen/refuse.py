"""C26: runs the derive macros on definitions they have to refuse, on the
closest definitions they have to accept, and on noise, and observes for each
whether the compiler took it, reported an error or saw the macro panic."""
import json, os, random, re

PRE = """    use safe_discriminant::Discriminant;
    use tpm2_rs_base::marshal::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
    use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
    use tpm2_rs_marshalable;
    use core::mem::{align_of, size_of};
    use core::mem::align_of as width_of;
    #[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
    pub struct Inner { pub left: u32, pub right: u16 }
"""
INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]
WORDS = "amber birch cedar ember fjord grove hazel larch maple nadir ochre pearl quartz slate topaz umber vale yarrow".split()


class Maker:
    def __init__(self, r):
        self.r = r

    def ty(self):
        return self.r.choice(INTS + ["Inner", "()"])

    def fields(self, lo, hi):
        """Harmless named fields."""
        r = self.r
        names = r.sample(WORDS, r.randint(lo, hi))
        return [f"pub {n}: " + (self.ty() if r.random() < 0.8 else f"[{r.choice(INTS + ['Inner'])}; {r.randrange(5)}]") for n in names]

    def put(self, fs, must):
        """`must` in this order, among the others."""
        r = self.r
        at = sorted(r.randrange(len(fs) + 1) for _ in must)
        out = list(fs)
        for k, (i, m) in enumerate(zip(at, must)):
            out.insert(i + k, m)
        return out

    def struct(self, fs, attrs="", derive="Marshalable", kind="struct"):
        body = "".join(f"        {f},\n" for f in fs)
        return f"    #[derive(Clone, Copy, {derive})]\n{attrs}    pub {kind} Subject {{\n{body}    }}"

    def listed(self, attr, arr=None, count="tally", extra=()):
        """A structure with a count and an array under `attr`."""
        r = self.r
        arr = arr or f"[{r.choice(INTS + ['Inner'])}; {r.choice([1, 3, 8, 40])}]"
        c = f"pub tally: {r.choice(INTS)}"
        return self.struct(self.put(self.fields(0, 4), [*extra, c, f"{attr} pub items: {arr}"]))

    def enum(self, bad):
        """(refused, accepted): one variant spoiled by `bad`."""
        r = self.r
        rep = r.choice(["u8", "u16", "u32"])
        n = r.randint(1, 6)
        k = r.randrange(n)
        good, spoiled = [], []
        for i in range(n):
            sel = r.choice([str(3 * i + 1), hex(3 * i + 1)])
            p = ", ".join(self.ty() for _ in range(r.randint(0, 3)))
            good.append(f"V{i}({p}) = {sel}")
            spoiled.append(bad(f"V{i}", p, sel) if i == k else good[-1])
        hint = r.choice([f"C, {rep}", rep])
        f = lambda vs: f"    #[derive(Clone, Copy, Discriminant, Marshalable)]\n    #[repr({hint})]\n    pub enum Subject {{\n" + "".join(f"        {v},\n" for v in vs) + "    }"
        return f(spoiled), f(good)

    # ---- definitions to refuse, with their accepted neighbours --------------

    def union(self):
        fs = [f"pub {n}: {self.r.choice(INTS)}" for n in self.r.sample(WORDS, self.r.randint(1, 4))]
        return self.struct(fs, kind="union"), self.struct(fs)

    def named_variant(self):
        return self.enum(lambda v, p, s: f"{v} {{ left: {self.ty()} }} = {s}")

    def unit_variant(self):
        return self.enum(lambda v, p, s: f"{v} = {s}")

    def no_selector(self):
        return self.enum(lambda v, p, s: f"{v}({p})")

    def length_on_scalar(self):
        t = self.r.choice(INTS + ["Inner"])
        s = self.r.getstate()
        bad = self.listed("#[marshalable(length = tally)]", t)
        self.r.setstate(s)
        return bad, self.listed("", t)

    def length_missing(self):
        s = self.r.getstate()
        bad = self.listed("#[marshalable(length = absent)]")
        self.r.setstate(s)
        return bad, self.listed("#[marshalable(length = tally)]")

    def length_later(self):
        r = self.r
        c, a = f"pub tally: {r.choice(INTS)}", f"#[marshalable(length = tally)] pub items: [{r.choice(INTS)}; 4]"
        s = r.getstate()
        bad = self.struct(self.put(self.fields(0, 4), [a, c]))
        r.setstate(s)
        return bad, self.struct(self.put(self.fields(0, 4), [c, a]))

    def length_array(self):
        """The count is itself an array."""
        r = self.r
        a = f"#[marshalable(length = tally)] pub items: [{r.choice(INTS)}; 4]"
        s = r.getstate()
        bad = self.struct(self.put(self.fields(0, 4), ["pub tally: [u8; 2]", a]))
        r.setstate(s)
        return bad, self.struct(self.put(self.fields(0, 4), ["pub tally: u16", a]))

    def attr(self, text):
        s = self.r.getstate()
        bad = self.listed(text)
        self.r.setstate(s)
        return bad, self.listed("#[marshalable(length = tally)]")

    def unknown_key(self):
        k = self.r.choice(["size", "count", "len", "lengths", "Length", "max", "selector", "skip", "tpm2b_simple", "big_endian", "length_"])
        return self.attr(f"#[marshalable({k} = tally)]")

    def bare_key(self):
        return self.attr(self.r.choice(["#[marshalable(length)]", "#[marshalable]", "#[marshalable()]", "#[marshalable(tally)]", "#[marshalable = \"length\"]"]))

    def not_a_name(self):
        return self.attr("#[marshalable(length = " + self.r.choice(["3", "\"tally\"", "tally + 1", "1 << 1", "tally as usize", "(tally)", "{ tally }", "tally()", "&tally", "[tally]", "self.tally", "!tally"]) + ")]")

    def not_an_ident(self):
        return self.attr("#[marshalable(length = " + self.r.choice(["self::tally", "crate::tally", "tally::max", "u8::MAX", "Self::tally", "<Inner>::tally", "<u8 as Into<u8>>::tally", "tally::<u8>"]) + ")]")

    def repeated(self):
        a = "#[marshalable(length = tally)]"
        sep = self.r.choice([" ", " /** A field. */ ", " #[allow(dead_code)] "])
        b = self.r.choice([a, "#[marshalable(length = absent)]", "#[marshalable(size = tally)]"])
        return self.attr(sep.join(self.r.choice([(a, b), (b, a)])))

    def several_keys(self):
        return self.attr("#[marshalable(length = tally" + self.r.choice([", length = tally", ", max = 3", " max", "; 3", ", tpm2b_simple"]) + ")]")

    # ---- sized buffers ------------------------------------------------------

    def buf(self, fs, derive="Marshalable"):
        return self.struct(fs, "    #[marshalable(tpm2b_simple)]\n", derive)

    def good_buf(self, derive="Marshalable", e=None):
        e = e or str(self.r.choice([0, 1, 8, 64, 300]))
        return ["size: u16", f"{self.r.choice(WORDS)}: [u8; {e}]"]

    def buffer_fields(self):
        r = self.r
        g = self.good_buf()
        k = r.randrange(7)
        if k == 0:
            bad = [g[0]]
        elif k == 1:
            bad = g + [f"extra: {self.ty()}"]
        elif k == 2:
            bad = [g[1], g[0]]
        elif k == 3:
            bad = [f"size: {r.choice(['u8', 'u32', 'u64', 'i16', 'usize'])}", g[1]]
        elif k == 4:
            bad = [f"{r.choice(['len', 'length', 'count', 'Size'])}: u16", g[1]]
        elif k == 5:
            bad = [g[0], g[1].replace("[u8", f"[{r.choice(['u16', 'i8', 'u32', '[u8; 2]', '(u8)'])}")]
        else:
            bad = [g[0], f"amber: {r.choice(['u8', 'u64', 'Inner', '(u8, u8)'])}"]
        return self.buf(bad), self.buf(g)

    def buffer_positional(self):
        g = self.good_buf()
        return "    #[derive(Clone, Copy, Marshalable)]\n    #[marshalable(tpm2b_simple)]\n    pub struct Subject(u16, [u8; 8]);", self.buf(g)

    def structured_size(self):
        r = self.r
        e = r.choice(["6", "8 + 4", "align_of::<Inner>()", "width_of::<Inner>()", "size_of::<[u8; 6]>()", "size_of::<(u32, u16)>()", "SIZE", "{ size_of::<Inner>() }"])
        pre = "    const SIZE: usize = size_of::<Inner>();\n"
        d = "Debug, PartialEq, Marshalable, Tpm2bStruct"
        f = r.choice(WORDS)
        mk = lambda e: pre + self.buf(["size: u16", f"{f}: [u8; {e}]"], d)
        return mk(e), mk("size_of::<Inner>()")

    def structured_enum(self):
        bad, good = self.enum(lambda v, p, s: f"{v}({p}) = {s}")
        return bad.replace("Marshalable)]", "Marshalable, Tpm2bStruct)]", 1), good

    # ---- noise --------------------------------------------------------------

    def tokens(self):
        r = self.r
        ts = ["length", "tally", "=", ",", "3", "\"x\"", "::", "tpm2b_simple", "tpm2b_struct", "(tally)", "[3]", "{ 1 }", "<", ">", "self", "Self", "crate", "'a", "-", "&", "#", "r#type", "..", "|x|", "_", "!", "as", "u8", "0x7f", ";", "()", "if", "1.5", "b'x'"]
        return " ".join(r.choice(ts) for _ in range(r.randint(0, 6)))

    def noise(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return self.listed(f"#[marshalable({self.tokens()})]")
        if k == 1:
            return self.struct(self.fields(0, 4) if r.random() < 0.5 else self.good_buf(), f"    #[marshalable({self.tokens()})]\n", r.choice(["Marshalable", "Marshalable, Tpm2bStruct"]))
        if k == 2:
            d, _ = self.enum(lambda v, p, s: f"#[marshalable({self.tokens()})] {v}({p}) = {s}")
            return d
        t = r.choice(["[[u8; 2]; 3]", "[(); 2]", "&'static str", "fn(u8) -> u8", "*const u8", "Option<u8>", "[u8; { 3 }]", "[u8; size_of::<Inner>()]", "(u8, u16)", "impl Copy", "dyn Copy", "!", "_", "Vec<u8>", "[Option<u8>; 2]", "[<u8 as core::ops::Add>::Output; 2]", "str", "[u8]"])
        return r.choice([
            self.struct(self.put(self.fields(0, 3), [f"pub items: {t}"])),
            f"    #[derive(Clone, Copy, Marshalable)]\n    pub struct Subject({t}, u8);",
            f"    #[derive(Clone, Copy, Marshalable)]\n    pub struct Subject<T: Copy>(T, {t});",
            f"    #[derive(Clone, Copy, Marshalable, Tpm2bStruct)]\n    #[marshalable(tpm2b_simple)]\n    pub struct Subject {{ size: u16, items: {t} }}",
            "    #[derive(Clone, Copy, Discriminant, Marshalable)]\n    #[repr(C, u8)]\n    pub enum Subject {}",
        ])


KINDS = [k for k in """union named_variant unit_variant no_selector length_on_scalar length_missing length_later length_array unknown_key bare_key
not_a_name not_an_ident repeated several_keys buffer_fields buffer_positional structured_size structured_enum""".split()]


def compile_all(R, gseed, name, defs):
    """Compiles the definitions together; returns success and the messages per definition."""
    d = os.path.join(R.HARNESS, "target", "gen", f"refuse-{gseed}-{name}")
    os.makedirs(d, exist_ok=True)
    lines, owner = [], {}
    for i, text in defs:
        block = f"mod d{i} {{\n{PRE}{text}\n}}".split("\n")
        for _ in block:
            lines.append(None)
            owner[len(lines)] = i
        lines[len(lines) - len(block):] = block
    path = os.path.join(d, "refuse.rs")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    target = os.path.join(R.HARNESS, "target")
    rc, out = R.run(["cargo", "check", "--offline", "--locked", "--bin", "refuse", "--target-dir", target, "--message-format=json"], 600, R.env(TPMGEN=d), R.GEN)
    errs, lost = {}, []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        m = m["message"]
        hit = set()
        todo = list(m["spans"]) + [s for c in m["children"] for s in c["spans"]]
        while todo:
            s = todo.pop()
            if s["file_name"] == path and s["line_start"] in owner:
                hit.add(owner[s["line_start"]])
            if s.get("expansion"):
                todo.append(s["expansion"]["span"])
        for i in hit:
            errs.setdefault(i, []).append(m["message"] + " " + " ".join(c["message"] for c in m["children"]))
        if not hit and not m["message"].startswith(("aborting", "Some errors", "For more")):
            lost.append(m["message"])
    return rc, errs, lost, out


def decide(R, tier, seed, only=None):
    n = 12 if tier == "quick" else 150
    rounds = 1 if tier == "quick" else 6
    res = {"evaluations": 0, "distinct_nontrivial": 0, "exhaustive": False, "samples": [], "events": {}, "sections": {}, "violations": [],
           "inconclusive": [], "wall_s": 0, "assumptions": ["a definition counts as refused when the compiler reports an error in it, whether the macro or the type checker found it"],
           "rule": "definitions outside the supported forms, each with a supported neighbour, and definitions with random attributes, given to the derive macros; distinct by text"}
    ev = res["events"]
    note = lambda k, m=1: ev.__setitem__(k, ev.get(k, 0) + m)

    def fail(sig, i, gseed, text, detail):
        res["violations"].append({"sig": sig, "section": f"round{gseed}", "index": i, "detail": f"{detail}\n{text}", "text": text})

    for k in range(rounds):
        gseed = seed * 1000 + k
        m = Maker(random.Random(gseed))
        bad, good, noise = [], [], []
        for i in range(n * len(KINDS)):
            kind = KINDS[i % len(KINDS)]
            b, g = getattr(m, kind)()
            bad.append((i, kind, b))
            good.append((i, kind, g))
        for i in range(n * 14):
            noise.append((i, "noise", m.noise()))
        distinct = {t for _, _, t in bad + good + noise}
        res["distinct_nontrivial"] += len(distinct)
        res["evaluations"] += len(bad) + len(good) + len(noise)

        def panicked(defs, errs, seen):
            for i, kind, text in defs:
                for msg in errs.get(i, []):
                    if "panicked" in msg and (kind, i) not in seen:
                        seen.add((kind, i))
                        fail("macro-panicked", i, gseed, text, f"{kind}: {msg}")

        def settle(defs, name):
            """Compiles, setting aside what is refused, until the rest compiles."""
            left, seen, refused = list(defs), set(), {}
            for step in range(30):
                if not left:
                    return left, refused
                rc, errs, lost, out = compile_all(R, gseed, name, [(i, t) for i, _, t in left])
                panicked(left, errs, seen)
                for i in errs:
                    refused[i] = errs[i]
                if rc == 0:
                    return left, refused
                if not errs:
                    print(out[-3000:])
                    raise R.NoVerdict("the compiler stopped without naming a definition: " + "; ".join(lost)[:600])
                left = [d for d in left if d[0] not in errs]
            raise R.NoVerdict("definitions keep failing")

        rc, errs, lost, out = compile_all(R, gseed, "good", [(i, t) for i, _, t in good])
        for i, kind, text in good:
            if i in errs:
                fail("supported-refused", i, gseed, text, f"next to {kind}: {errs[i][0]}")
            elif rc == 0:
                note("accepted:next-to-" + kind)
        if rc is None or (rc and not errs):
            print(out[-3000:])
            raise R.NoVerdict("the supported definitions do not compile: " + "; ".join(lost)[:600])
        panicked(good, errs, set())
        left, refused = settle(bad, "bad")
        for i, kind, text in bad:
            if i in refused:
                note("refused:" + kind)
                if len(res["samples"]) < 12 and i % 7 == 0:
                    res["samples"].append(f"{kind} refused with: {refused[i][0][:160]}")
        for i, kind, text in left:
            fail("accepted", i, gseed, text, f"{kind}: the definition was accepted")
        left, refused = settle(noise, "noise")
        note("noise:refused", len(refused))
        note("noise:accepted", len(left))
        res["sections"][f"round{gseed}"] = len(bad) + len(good) + len(noise)
        if res["violations"]:
            break
    for v in res["violations"][:6]:
        print(v["sig"], v["detail"][:1500])
    # One per signature.
    seen, out = set(), []
    for v in res["violations"]:
        if v["sig"] not in seen:
            seen.add(v["sig"])
            out.append(v)
    res["violations"] = out
    if not out:
        for kind in KINDS:
            if ev.get("refused:" + kind, 0) < n // 2 or ev.get("accepted:next-to-" + kind, 0) < n // 2:
                res["inconclusive"].append(f"{kind}: {ev.get('refused:' + kind, 0)} refused")
        for k in ("noise:refused", "noise:accepted"):
            if ev.get(k, 0) < 10:
                res["inconclusive"].append(f"observed {ev.get(k, 0)} of {k}")
    return res


def replay(R, v):
    """Exit status for a recorded definition."""
    rc, errs, lost, out = compile_all(R, 0, "replay", [(0, v["text"])])
    print(v["text"])
    for m in errs.get(0, []):
        print("  ", m)
    if v["sig"] == "macro-panicked":
        return 1 if any("panicked" in m for m in errs.get(0, [])) else 0
    if v["sig"] == "supported-refused":
        return 1 if errs.get(0) else 0
    return 1 if rc == 0 else 0
