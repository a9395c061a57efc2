"""Makes random type definitions that the derive macros accept, each with its
reference shape and a generator of values with their reference encodings.

  definitions.py SEED COUNT OUT.rs
"""
import random, sys

UINTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}
SINTS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}
INTS = {**UINTS, **SINTS}
# Types of the library: name, largest encoding, usable as array element.
LIB = [("TpmiAlgHash", 2), ("TpmsPcrSelection", 7), ("Tpm2bDigest", 66), ("TpmaObject", 4)]
WORDS = """amber birch cedar delta ember fjord grove hazel iris jade karst larch maple nadir ochre pearl quartz river
slate topaz umber vale willow xenon yarrow zephyr acorn basil clover dune elder fern ginger heath ivory juniper""".split()
LIMIT = 2200


class T:
    def __init__(self, name, size, elem=True, over=False):
        self.name, self.size, self.elem, self.over = name, size, elem, over


class Gen:
    def __init__(self, seed, count):
        self.r = random.Random(seed)
        self.types = [T(n, s) for n, s in LIB]
        self.own = []
        self.out = []
        self.plain, self.unions, self.bufs, self.structs, self.overs, self.hidden = [], [], [], [], [], []
        self.stats = {}
        for k in range(count):
            self.one(k)

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ---- parts -------------------------------------------------------------

    def names(self, n):
        r = self.r
        base = [r.choice(WORDS) + r.choice(["", "", "_", "_2", "10", "_a"]) for _ in range(4 * n + 4)]
        out = []
        for b in base:
            if b not in out:
                out.append(b)
        out = out[:n]
        return out

    def leaf(self, room):
        """(type text, largest encoding, may be an array element)"""
        r = self.r
        k = r.random()
        if k < 0.5:
            t = r.choice(list(INTS))
            return t, INTS[t], True
        if k < 0.6:
            n = r.choice([0, 1, 2, 3, 5, 8, 17, 64])
            return f"[u8; {self.number(n)}]", n, False
        if k < 0.64:
            return "()", 0, False
        fits = [t for t in (self.own[-12:] if r.random() < 0.7 else self.types) if t.size <= room]
        if not fits:
            return "u16", 2, True
        t = r.choice(fits)
        name = t.name
        if name.startswith("G") and r.random() < 0.2:
            name = "crate::types::" + name
        return name, t.size, t.elem

    def number(self, n):
        """An expression for a length."""
        r = self.r
        k = r.random()
        if k < 0.6:
            return str(n)
        if k < 0.7:
            return hex(n)
        if k < 0.8 and n > 1:
            m = r.randrange(n)
            return f"{m} + {n - m}"
        c = f"L{len(self.out)}_{r.randrange(10 ** 6)}"
        if k < 0.9:
            self.out.append(f"pub const {c}: usize = {n};")
            return c
        self.out.append(f"pub const {c}: u16 = {n};")
        return f"{c} as usize"

    def doc(self):
        r = self.r
        return r.choice(["", "", "", "    /// A field.\n", "    #[allow(dead_code)]\n"])

    # ---- kinds -------------------------------------------------------------

    def one(self, k):
        r = self.r
        name = f"G{k}"
        x = r.random()
        if k < 3:
            x = 0.1
        if x < 0.42:
            self.record(name)
        elif x < 0.55:
            self.tuple(name)
        elif x < 0.58:
            self.out.append(f"#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]\npub struct {name};")
            self.impl(name, "Shape::Unit", f"        {name}")
            self.add(T(name, 0), self.plain)
            self.note("unit")
        elif x < 0.82:
            self.enum(name)
        elif x < 0.91:
            self.buffer(name, None)
        else:
            self.buffer(name, r.choice([t for t in self.own if t.size < 1500] or [None]))

    def add(self, t, where):
        self.types.append(t)
        self.own.append(t)
        where.append(t.name)

    def impl(self, name, shape, arb):
        self.out.append(f"""impl Wire for {name} {{
    fn shape() -> Shape {{
        {shape}
    }}
    #[allow(unused_variables)]
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {{
{arb}
    }}
}}""")

    def record(self, name):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 11, 16])
        fields = []  # (kind, type, ...)
        counts = []  # indices of count fields
        size = 0
        for i in range(n):
            x = r.random()
            room = max(0, LIMIT - size)
            if x < 0.22 or (i == 0 and n > 1 and x < 0.6):
                t = r.choice(list(UINTS) if r.random() < 0.7 else list(SINTS))
                fields.append(["count", t])
                counts.append(i)
                size += INTS[t]
            elif x < 0.55 and counts:
                t, s, ok = self.leaf(room // 4)
                while not ok:
                    t, s, ok = self.leaf(room // 4)
                c = r.choice(counts)
                lim = 2 ** (8 * INTS[fields[c][1]] - (1 if fields[c][1] in SINTS else 0)) - 1
                cap = min(r.choice([0, 1, 2, 3, 3, 4, 5, 7, 9, 16, 33, 127, 128, 255, 256, 300]), lim, room // max(s, 1))
                fields.append(["arr", t, cap, c])
                size += cap * s
            elif x < 0.7:
                t, s, ok = self.leaf(room // 4)
                while not ok:
                    t, s, ok = self.leaf(room // 4)
                m = min(r.choice([0, 1, 2, 3, 3, 5, 9, 33, 128, 256, 300]), room // max(s, 1))
                fields.append(["fix", t, m])
                size += m * s
            else:
                t, s, _ = self.leaf(room)
                fields.append(["one", t])
                size += s
        # A count that no array uses is a plain integer.
        used = {f[3] for f in fields if f[0] == "arr"}
        for i, f in enumerate(fields):
            if f[0] == "count" and i not in used:
                f[0] = "one"
        counts = [i for i, f in enumerate(fields) if f[0] == "count"]
        fn = self.names(n)
        defn, parts, arb, dflt, over, hid = [], [], [], [], [], []
        for i, f in enumerate(fields):
            v = f"v{i}"
            vis = r.choice(["pub ", "pub ", "pub(crate) ", ""])
            if f[0] in ("one", "count"):
                ty = f[1]
            else:
                ty = f"[{f[1]}; {self.number(f[2])}]"
            attr = ""
            if f[0] == "arr":
                attr = f"    #[marshalable(length = {fn[f[3]]})]\n"
            d = self.doc()
            defn.append((d + attr if r.random() < 0.5 else attr + d) + f"    {vis}{fn[i]}: {ty},")
            if f[0] == "one":
                parts.append(f"Part::One(<{ty} as Wire>::shape())")
                arb.append(f"let {v} = <{ty} as Wire>::arb(r, o);")
                hid.append(f"let {v} = <{ty} as Wire>::arb(r, o);")
                dflt.append("Default::default()" if not ty.startswith("[u8") else f"[0; {f[1][5:-1]}]")
            elif f[0] == "count":
                parts.append(f"Part::Count({INTS[ty]})")
                m = min(g[2] for g in fields if g[0] == "arr" and g[3] == i)
                arb.append(f"let {v} = count(r, o, {INTS[ty]}, {m}) as {ty};")
                hid.append(f"let {v} = r.below({m} + 1) as {ty};")
                dflt.append("0")
            elif f[0] == "arr":
                parts.append(f"Part::Arr {{ count: {counts.index(f[3])}, cap: {f[2]}, elem: <{f[1]} as Wire>::shape() }}")
                arb.append(f"let {v} = elems(r, o, v{f[3]} as usize);")
                hid.append(f"let {v} = elems(r, o, {f[2]});")
                dflt.append(f"[Default::default(); {f[2]}]")
            else:
                parts.append(f"Part::One(Shape::Rep({f[2]}, Box::new(<{f[1]} as Wire>::shape())))")
                arb.append(f"let {v} = elems(r, o, {f[2]});")
                hid.append(f"let {v} = elems(r, o, {f[2]});")
                dflt.append(f"[Default::default(); {f[2]}]")
        body = "\n".join(defn)
        self.out.append(f"#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]\npub struct {name} {{\n{body}\n}}")
        make = f"{name} {{ " + ", ".join(f"{a}: v{i}" for i, a in enumerate(fn)) + " }"
        self.out.append(f"impl Default for {name} {{\n    fn default() -> Self {{\n        {name} {{ "
                        + ", ".join(f"{a}: {d}" for a, d in zip(fn, dflt)) + " }\n    }\n}")
        self.impl(name, f"Shape::Rec(vec![{', '.join(parts)}])", "\n".join("        " + a for a in arb + [make]))
        self.add(T(name, size), self.plain)
        self.note("record")
        if counts:
            self.note("record:counted")
            # More than an array has.
            c = r.choice(counts)
            m = min(g[2] for g in fields if g[0] == "arr" and g[3] == c)
            bits = 8 * INTS[fields[c][1]]
            if m < 2 ** bits - 1:
                self.out.append(f"""fn over_{name}(r: &mut Rng) -> (Box<dyn AnyVal>, String) {{
    let mut v = <{name} as Wire>::arb(r, &mut vec![]);
    let n = above(r, {m}, {bits});
    v.{fn[c]} = n as {fields[c][1]};
    (Box::new(v), format!("count {{n}}"))
}}""")
                self.overs.append(name)
            h = "\n".join("    " + a for a in hid)
            self.out.append(f"""#[allow(unused_variables)]
fn hidden_{name}(r: &mut Rng) -> Box<dyn AnyVal> {{
    let o = &mut vec![];
{h}
    Box::new({make})
}}""")
            self.hidden.append(name)

    def tuple(self, name):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4, 7, 12, 19])
        size, tys = 0, []
        for _ in range(n):
            t, s, _ = self.leaf(max(0, LIMIT - size))
            size += s
            tys.append(t)
        self.out.append(f"#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]\npub struct {name}(" + ", ".join(r.choice(["pub ", ""]) + t for t in tys) + ");")
        self.dflt(name, name, tys)
        arb = [f"        let v{i} = <{t} as Wire>::arb(r, o);" for i, t in enumerate(tys)]
        arb.append(f"        {name}(" + ", ".join(f"v{i}" for i in range(n)) + ")")
        self.impl(name, "Shape::Seq(vec![" + ", ".join(f"<{t} as Wire>::shape()" for t in tys) + "])", "\n".join(arb))
        self.add(T(name, size), self.plain)
        self.note("tuple")

    def dflt(self, name, ctor, tys):
        v = ", ".join("Default::default()" if not t.startswith("[u8") else f"[0; {t[5:-1]}]" for t in tys)
        self.out.append(f"impl Default for {name} {{\n    fn default() -> Self {{\n        {ctor}({v})\n    }}\n}}")

    def enum(self, name):
        r = self.r
        rep = r.choice(["u8", "u16", "u16", "u32", "u32", "u64", "i8", "i16", "i32"])
        w = INTS[rep]
        n = r.choice([1, 2, 3, 4, 5, 8, 13, 30])
        lo, hi = (-2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1) if rep in SINTS else (0, 2 ** (8 * w) - 1)
        sels = []
        while len(sels) < n:
            k = r.random()
            if k < 0.3:
                v = r.choice([lo, hi, 0, 1, hi - 1, hi // 2, hi // 2 + 1, lo + 1])
            elif k < 0.6 and sels:
                b = r.choice(sels)
                v = r.choice([b + 1, b - 1, b ^ (1 << r.randrange(8 * w - 1)),
                              int.from_bytes((b & (2 ** (8 * w) - 1)).to_bytes(w, "big"), "little")])
            else:
                v = r.randint(lo, hi)
            if lo <= v <= hi and v not in sels:
                sels.append(v)
        arms, defs, arb, size = [], [], [], 0
        for i, v in enumerate(sels):
            m = r.choice([0, 1, 1, 1, 2, 2, 3, 5, 9, 13])
            s, tys = 0, []
            for _ in range(m):
                t, k, _ = self.leaf(max(0, LIMIT - s))
                s += k
                tys.append(t)
            size = max(size, s)
            x = r.random()
            if x < 0.5:
                e = str(v)
            elif x < 0.75:
                e = hex(v)
            elif x < 0.85 and v > 3:
                a = r.randrange(v)
                e = f"{a} + {v - a}"
            else:
                c = f"S{len(self.out)}_{i}"
                self.out.append(f"pub const {c}: {rep} = {v};")
                e = r.choice([c, "crate::types::" + c])
            defs.append(f"    V{i}({', '.join(tys)}) = {e},")
            raw = v & (2 ** (8 * w) - 1)
            arms.append(f"({raw}, Shape::Seq(vec![{', '.join(f'<{t} as Wire>::shape()' for t in tys)}]))")
            put = f"o.extend_from_slice(&{raw}u64.to_be_bytes()[{8 - w}..]);"
            lets = " ".join(f"let v{j} = <{t} as Wire>::arb(r, o);" for j, t in enumerate(tys))
            arb.append(f"            {i} => {{ {put} {lets} {name}::V{i}({', '.join(f'v{j}' for j in range(m))}) }}")
            if i == 0:
                first = tys
        hint = rep if w == 8 else r.choice([f"C, {rep}", f"C, {rep}", rep])
        self.out.append(f"#[derive(Clone, Copy, Debug, PartialEq, Discriminant, Marshalable)]\n#[repr({hint})]\npub enum {name} {{\n" + "\n".join(defs) + "\n}")
        self.dflt(name, f"{name}::V0", first)
        self.impl(name, f"Shape::Sel {{ w: {w}, arms: vec![{', '.join(arms)}] }}",
                  f"        match r.below({n}) {{\n" + "\n".join(arb) + "\n            _ => unreachable!(),\n        }")
        self.add(T(name, size + w), self.unions if rep in UINTS else self.plain)
        self.note("enum:" + rep)

    def buffer(self, name, inner):
        r = self.r
        if inner is None:
            cap = r.choice([0, 1, 2, 7, 20, 32, 48, 64, 100, 255, 256, 257, 1000])
            e = self.number(cap)
            drv, bound = "", str(cap)
            size = cap + 2
        else:
            p = inner.name if r.random() < 0.7 or not inner.name.startswith("G") else "crate::types::" + inner.name
            e = f"size_of::<{p}>()"
            drv, bound = ", Tpm2bStruct", e
            # The memory size bounds the contents; alignment can make it much larger than the encoding.
            size = LIMIT
        field = r.choice(WORDS)
        self.out.append(f"#[derive(Clone, Copy, Debug, PartialEq, Marshalable{drv})]\n#[marshalable(tpm2b_simple)]\npub struct {name} {{\n    size: u16,\n    {field}: [u8; {e}],\n}}")
        self.impl(name, f"Shape::B2({bound})", f"""        let n = r.len_upto({bound});
        let b = r.bytes(n);
        o.extend_from_slice(&(n as u16).to_be_bytes());
        o.extend_from_slice(&b);
        <{name} as Tpm2bSimple>::from_bytes(&b).unwrap_or_else(|e| panic!("{name}::from_bytes of {{n}} bytes: {{e:?}}"))""")
        self.add(T(name, size), self.plain)
        self.bufs.append(name)
        self.note("buffer" if inner is None else "buffer:structured")
        if inner is not None:
            self.structs.append(name)

    def text(self):
        l = lambda f, xs: ", ".join(f(x) for x in xs)
        tail = f"""
pub fn all() -> Vec<TypeInfo> {{
    vec![{l(lambda x: f'info::<{x}>("{x}")', self.plain)}, {l(lambda x: f'vinfo::<{x}>("{x}")', self.unions)}]
}}
pub fn buffers() -> Vec<BufOps> {{
    vec![{l(lambda x: f'BufOps {{ name: "{x}", run: buf_case::<{x}> }}', self.bufs)}]
}}
pub fn structs() -> Vec<StructOps> {{
    vec![{l(lambda x: f'StructOps {{ name: "{x}", run: struct_case::<{x}> }}', self.structs)}]
}}
pub fn overs() -> Vec<(&'static str, fn(&mut Rng) -> (Box<dyn AnyVal>, String))> {{
    vec![{l(lambda x: f'("{x}", over_{x})', self.overs)}]
}}
pub fn hidden() -> Vec<(TypeInfo, fn(&mut Rng) -> Box<dyn AnyVal>)> {{
    vec![{l(lambda x: f'(info::<{x}>("{x}"), hidden_{x} as fn(&mut Rng) -> Box<dyn AnyVal>)', self.hidden)}]
}}
"""
        return "\n".join(self.out) + tail


if __name__ == "__main__":
    seed, count, path = sys.argv[1:]
    g = Gen(int(seed), int(count))
    open(path, "w").write(g.text())
    print(len(g.own), g.stats)
