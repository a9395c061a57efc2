//! Monitors that apply to any wire type. Each takes the types to observe, so the
//! same oracle watches the library's own types and user types with derived codecs.
use crate::ctx::*;
use crate::rng::Rng;
use crate::shape::*;
use crate::types::*;
use tpm2_rs_base::errors::{TpmRcError, TssError};
use tpm2_rs_base::marshal::{Error, UnmarshalBuf};

pub const BIG: usize = 24_000;

pub fn bit(e: Error) -> u8 {
    match e {
        Error::UnexpectedEndOfBuffer => END,
        Error::ArrayLengthExceeded => ARR,
        Error::UnknownSelector => SEL,
    }
}
pub fn ekey(e: u8) -> &'static str {
    match e {
        END => "rejected:end-of-buffer",
        ARR => "rejected:array-length",
        SEL => "rejected:unknown-selector",
        _ => "rejected:other",
    }
}

/// A byte string to decode, and how it was made.
pub fn input(t: &TypeInfo, r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(12) {
        0..=2 => {
            let mut b = well_formed(&t.shape, r);
            if r.chance(1, 2) {
                let n = r.below(20);
                b.extend(r.bytes(n));
            }
            (b, "input:well-formed")
        }
        3 | 4 => {
            let mut b = well_formed(&t.shape, r);
            if !b.is_empty() {
                let n = r.below(b.len());
                b.truncate(n);
            }
            (b, "input:truncated")
        }
        5..=8 => match malformed(&t.shape, r) {
            Some((mut b, k)) => {
                if r.chance(1, 8) && !b.is_empty() {
                    let n = r.below(b.len());
                    b.truncate(n);
                }
                if r.chance(1, 4) {
                    let n = r.below(40);
                    b.extend(r.bytes(n));
                }
                (
                    b,
                    match k {
                        "count" => "input:count-above-capacity",
                        "size" => "input:size-above-capacity",
                        _ => "input:unknown-selector",
                    },
                )
            }
            None => (well_formed(&t.shape, r), "input:well-formed"),
        },
        9 => {
            let mut b = well_formed(&t.shape, r);
            for _ in 0..r.range(1, 4) {
                if b.is_empty() {
                    break;
                }
                let i = if r.chance(1, 2) { r.below(b.len().min(16)) } else { r.below(b.len()) };
                match r.below(3) {
                    0 => b[i] ^= 1 << r.below(8),
                    1 => b[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
                    _ => b[i] = r.u8(),
                }
            }
            (b, "input:mutated")
        }
        10 => {
            let n = r.below(300);
            (r.bytes(n), "input:random")
        }
        _ => {
            let n = r.below(64);
            let x = *r.pick(&[0u8, 0xff, 1]);
            (vec![x; n], "input:constant")
        }
    }
}

/// Encodes into a large buffer.
pub fn encode_big(v: &dyn AnyVal) -> Result<Vec<u8>, Error> {
    let mut b = vec![0xA5u8; BIG];
    let n = match v.encode(&mut b) {
        Err(Error::UnexpectedEndOfBuffer) => {
            b = vec![0xA5u8; 80_000];
            v.encode(&mut b)?
        }
        r => r?,
    };
    b.truncate(n);
    Ok(b)
}

fn arms_pick(t: &TypeInfo, r: &mut Rng, w: usize) -> u64 {
    let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let arms = t.shape.arms().unwrap();
    if r.chance(2, 3) {
        r.pick(arms).0
    } else {
        let base = r.pick(arms).0;
        (match r.below(4) {
            0 => base ^ (1 << r.below(8 * w)),
            1 => base.wrapping_add(1),
            2 => 0,
            _ => r.u64(),
        }) & mask
    }
}
/// (selector, body bytes)
pub fn variant_input(t: &TypeInfo, r: &mut Rng) -> (u64, Vec<u8>) {
    let w = t.shape.sel_width();
    let sel = arms_pick(t, r, w);
    let arms = t.shape.arms().unwrap();
    let body = match arms.iter().find(|a| a.0 == sel) {
        Some((_, s)) if r.chance(3, 4) => {
            let mut b = if r.chance(1, 3) {
                malformed(s, r).map(|x| x.0).unwrap_or_default()
            } else {
                well_formed(s, r)
            };
            if r.chance(1, 4) && !b.is_empty() {
                let n = r.below(b.len());
                b.truncate(n);
            }
            b
        }
        _ => {
            let n = r.below(100);
            r.bytes(n)
        }
    };
    (sel, body)
}

// ---- C01 --------------------------------------------------------------------

pub fn total_decoding(ctx: &mut Ctx, types: &[TypeInfo], sec: &str, n: u64) {
    ctx.section(&format!("{sec}decode"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        for _ in 0..4 {
            let (b, kind) = input(t, &mut c.rng);
            one_decode(c, t, &b, kind, None);
            if t.variant.is_some() {
                let (sel, body) = variant_input(t, &mut c.rng);
                one_decode(c, t, &body, "input:union-body", Some(sel));
            }
        }
    });
}

fn dec(t: &TypeInfo, sel: Option<u64>, u: &mut UnmarshalBuf) -> Result<Box<dyn AnyVal>, Error> {
    match sel {
        None => (t.decode)(u),
        Some(s) => (t.variant.as_ref().unwrap().decode)(s, u),
    }
}

fn one_decode(c: &mut Case, t: &TypeInfo, b: &[u8], kind: &'static str, sel: Option<u64>) {
    c.eval();
    c.note(kind);
    let ctx = || format!("type {} selector {sel:x?} input {}", t.name, hex(b));
    let mut u = UnmarshalBuf::new(b);
    let Some(r) = c.no_panic("decode", &ctx(), || dec(t, sel, &mut u)) else { return };
    let left = u.len();
    if left > b.len() {
        c.fail("consumed-negative", format!("remaining {left} of {}; {}", b.len(), ctx()));
        return;
    }
    if u.is_empty() != (left == 0) {
        c.fail("cursor-empty", ctx());
    }
    match u.get(left) {
        Some(rest) if rest == &b[b.len() - left..] => {}
        other => c.fail("cursor-rest", format!("rest {other:x?}; {}", ctx())),
    }
    let used = b.len() - left;
    match r {
        Err(e) => {
            c.note(ekey(bit(e)));
            c.distinct(&[t.name.as_bytes(), b].concat());
        }
        Ok(v) => {
            c.note("decoded");
            if used > 0 {
                c.distinct(&[t.name.as_bytes(), &b[..used]].concat());
                c.sample(|| format!("{} from {} ({kind}): {}", t.name, hex(b), v.dbg()));
            }
            // The consumed prefix alone, and followed by other bytes.
            let mut alt = b[..used].to_vec();
            for extra in 0..2 {
                if extra == 1 {
                    if c.rng.chance(1, 500) && !cfg!(miri) {
                        // Lengths at which narrow arithmetic wraps.
                        let to = *c.rng.pick(&[256usize, 65536]) + c.rng.below(16);
                        let x = c.rng.u8();
                        alt.resize(alt.len().max(to - 4), x);
                        c.note("long-input");
                    } else {
                        let n = c.rng.range(1, 40);
                        let x = c.rng.bytes(n);
                        alt.extend(x);
                    }
                }
                let mut u2 = UnmarshalBuf::new(&alt);
                let Some(r2) = c.no_panic("decode", &ctx(), || dec(t, sel, &mut u2)) else { return };
                match r2 {
                    Err(e) => c.fail("prefix-dependent", format!("consumed prefix + {} bytes: {e:?}; {}", alt.len() - used, ctx())),
                    Ok(v2) => {
                        if alt.len() - u2.len() != used || !v.same(&*v2) {
                            c.fail(
                                "prefix-dependent",
                                format!("{} vs {} consuming {used} vs {}; {}", v.dbg(), v2.dbg(), alt.len() - u2.len(), ctx()),
                            );
                        }
                    }
                }
            }
        }
    }
}

/// The byte cursor against a list model.
pub fn cursor(ctx: &mut Ctx, n: u64) {
    ctx.section("cursor", n, |c| {
        let long = c.rng.chance(1, 200) && !cfg!(miri);
        let len = if long { *c.rng.pick(&[252usize, 65532]) + c.rng.below(8) } else { c.rng.below(70) };
        let b = c.rng.bytes(len);
        let mut u = UnmarshalBuf::new(&b);
        let mut at = 0usize;
        for _ in 0..c.rng.range(1, 12) {
            c.eval();
            let k = match c.rng.below(8) {
                0 => 0,
                1 => len - at,
                2 => (len - at) + 1,
                3 => usize::MAX,
                4 => usize::MAX - c.rng.below(100),
                5 => c.rng.below(len + 3),
                _ => c.rng.below(6),
            };
            let before = at;
            let Some(r) = c.no_panic("cursor", &format!("get({k}) at {at} of {len}"), || u.get(k)) else { return };
            match r {
                Some(s) => {
                    c.note("cursor:some");
                    if k > len - at || s != &b[at..at + k] {
                        c.fail("cursor-get", format!("get({k}) at {at} of {len} gave {}", hex(s)));
                        return;
                    }
                    at += k;
                }
                None => {
                    c.note("cursor:none");
                    if k <= len - at {
                        c.fail("cursor-get", format!("get({k}) at {at} of {len} gave None"));
                        return;
                    }
                }
            }
            if u.len() != len - at || u.is_empty() != (len == at) {
                c.fail("cursor-len", format!("after get({k}) at {before} of {len}: len {}", u.len()));
                return;
            }
            c.distinct(&[len as u8, before as u8, k as u8, (k >> 8) as u8]);
        }
    });
}

// ---- C02 --------------------------------------------------------------------

pub fn lossless(ctx: &mut Ctx, types: &[TypeInfo], sec: &str, n: u64) {
    ctx.section(&format!("{sec}values"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        let mut r = c.rng.clone();
        let Some((v, _)) = c.no_panic("make-value", t.name, || (t.make)(&mut r)) else { return };
        c.rng = r;
        value_roundtrip(c, t, &*v, true);
    });
    ctx.section(&format!("{sec}bytes"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        for _ in 0..3 {
            let (b, kind) = input(t, &mut c.rng);
            c.eval();
            c.note(kind);
            let what = format!("type {} input {}", t.name, hex(&b));
            let mut u = UnmarshalBuf::new(&b);
            let Some(Ok(v)) = c.no_panic("decode", &what, || (t.decode)(&mut u)) else { continue };
            let used = b.len() - u.len();
            c.note("decoded");
            let Some(e) = c.no_panic("encode", &what, || encode_big(&*v)) else { continue };
            match e {
                Ok(e) if e == b[..used] => {
                    c.note("bytes-reproduced");
                    if used > 0 {
                        c.distinct(&[t.name.as_bytes(), &e].concat());
                    }
                }
                other => c.fail("bytes-not-reproduced", format!("{other:x?} from {used} consumed bytes; {what}")),
            }
        }
        if let Some(vo) = &t.variant {
            let (sel, body) = variant_input(t, &mut c.rng);
            c.eval();
            let what = format!("type {} selector {sel:x} body {}", t.name, hex(&body));
            let mut u = UnmarshalBuf::new(&body);
            if let Some(Ok(v)) = c.no_panic("decode-variant", &what, || (vo.decode)(sel, &mut u)) {
                let used = body.len() - u.len();
                let mut d = vec![0u8; BIG];
                if let Some(e) = c.no_panic("encode-variant", &what, || (vo.encode)(&*v, &mut d)) {
                    if e != Ok(used) || d[..used] != body[..used] || (vo.disc)(&*v) != sel {
                        c.fail("variant-bytes-not-reproduced", format!("{e:?} disc {:x}; {what}", (vo.disc)(&*v)));
                    } else {
                        c.note("variant-bytes-reproduced");
                    }
                }
            }
        }
    });
}

pub fn value_roundtrip(c: &mut Case, t: &TypeInfo, v: &dyn AnyVal, exact: bool) {
    c.eval();
    let what = format!("type {} value {}", t.name, v.dbg());
    let Some(e) = c.no_panic("encode", &what, || encode_big(v)) else { return };
    let Ok(e) = e else {
        c.fail("encode-failed", format!("{e:?}; {what}"));
        return;
    };
    c.note("encoded");
    if !e.is_empty() {
        c.distinct(&[t.name.as_bytes(), &e].concat());
        c.sample(|| format!("{} = {} <-> {}", t.name, v.dbg(), hex(&e)));
    }
    // Followed by other bytes, so that over-reading shows.
    let mut b = e.clone();
    let n = c.rng.below(3) * c.rng.below(9);
    b.extend(c.rng.bytes(n));
    let mut u = UnmarshalBuf::new(&b);
    let Some(r) = c.no_panic("decode", &what, || (t.decode)(&mut u)) else { return };
    match r {
        Err(x) => c.fail("own-encoding-rejected", format!("{x:?} for {}; {what}", hex(&e))),
        Ok(w) => {
            if b.len() - u.len() != e.len() {
                c.fail("consumed-length", format!("consumed {} of {} written; {what}", b.len() - u.len(), e.len()));
            }
            if exact && !v.same(&*w) {
                c.fail("value-changed", format!("got {} from {}; {what}", w.dbg(), hex(&e)));
            }
            match c.no_panic("encode", &what, || encode_big(&*w)) {
                Some(Ok(e2)) if e2 == e => c.note("roundtrip"),
                other => c.fail("re-encoding-differs", format!("{other:x?} vs {}; {what}", hex(&e))),
            }
        }
    }
    if let Some(vo) = &t.variant {
        let mut d = vec![0x5Au8; BIG];
        let Some(n) = c.no_panic("encode-variant", &what, || (vo.encode)(v, &mut d)) else { return };
        let Ok(n) = n else {
            c.fail("encode-variant-failed", format!("{n:?}; {what}"));
            return;
        };
        let sel = (vo.disc)(v);
        if e.len() != n + vo.width || d[..n] != e[vo.width..] {
            c.fail("variant-body-differs", format!("body {} of {}; {what}", hex(&d[..n]), hex(&e)));
        }
        let mut u = UnmarshalBuf::new(&d[..n]);
        match c.no_panic("decode-variant", &what, || (vo.decode)(sel, &mut u)) {
            Some(Ok(w)) if u.is_empty() && (!exact || w.same(v)) => c.note("variant-roundtrip"),
            Some(Ok(w)) => c.fail("variant-changed", format!("{} left {}; {what}", w.dbg(), u.len())),
            Some(Err(x)) => c.fail("variant-rejected", format!("selector {sel:x}: {x:?}; {what}")),
            None => {}
        }
    }
}

// ---- C03 --------------------------------------------------------------------

pub fn bounded_encoding(ctx: &mut Ctx, types: &[TypeInfo], sec: &str, n: u64) {
    ctx.section(&format!("{sec}destinations"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        let mut r = c.rng.clone();
        let Some((v, _)) = c.no_panic("make-value", t.name, || (t.make)(&mut r)) else { return };
        c.rng = r;
        destinations(c, t.name, v.dbg(), &|d| v.encode(d));
        if let Some(vo) = &t.variant {
            destinations(c, t.name, format!("(body of) {}", v.dbg()), &|d| (vo.encode)(&*v, d));
        }
    });
}

pub fn destinations(c: &mut Case, name: &str, dbg: String, enc: &dyn Fn(&mut [u8]) -> Result<usize, Error>) {
    let what = format!("type {name} value {dbg}");
    let mut full = vec![0xC3u8; BIG];
    let Some(r) = c.no_panic("encode", &what, || enc(&mut full)) else { return };
    let Ok(len) = r else {
        c.fail("encode-failed", format!("{r:?} with {BIG} bytes available; {what}"));
        return;
    };
    if len > BIG {
        c.fail("length-beyond-destination", format!("{len}; {what}"));
        return;
    }
    let e = full[..len].to_vec();
    if !all_are(&full[len..], 0xC3) {
        c.fail("wrote-beyond-length", format!("destination {BIG}, reported {len}; {what}"));
    }
    let mut lens: Vec<usize> = if len <= 40 || (len <= 300 && c.index % 16 == 0) {
        (0..=len + 3).collect()
    } else {
        let mut l: Vec<usize> = (0..12).chain(len - 9..=len + 2).collect();
        for _ in 0..12 {
            l.push(c.rng.below(len));
        }
        l
    };
    lens.push(len + c.rng.below(3000));
    lens.push(70_000);
    for d in lens {
        c.eval();
        let canary = c.rng.u8();
        let mut buf = vec![canary; d + 32];
        let Some(r) = c.no_panic("encode", &format!("destination of {d} bytes, needs {len}; {what}"), || enc(&mut buf[..d]))
        else {
            continue;
        };
        if !all_are(&buf[d..], canary) {
            c.fail("wrote-outside-destination", format!("destination {d}; {what}"));
        }
        match r {
            Ok(n) => {
                c.note("fits");
                if d < len || n != len {
                    c.fail("length", format!("Ok({n}) for destination {d}, encoding has {len}; {what}"));
                } else if buf[..n] != e[..] {
                    c.fail("bytes-depend-on-destination", format!("destination {d}: {} vs {}; {what}", hex(&buf[..n]), hex(&e)));
                } else if !all_are(&buf[n..], canary) {
                    c.fail("wrote-beyond-length", format!("destination {d}, reported {n}; {what}"));
                }
            }
            Err(x) => {
                c.note("too-small");
                if d >= len {
                    c.fail("fitting-refused", format!("{x:?} for destination {d}, encoding has {len}; {what}"));
                }
            }
        }
        c.distinct(&[name.as_bytes(), &(d as u32).to_be_bytes(), &(len as u32).to_be_bytes()].concat());
    }
    c.sample(|| format!("{name}: encoding of {len} bytes into every destination around it"));
}

// ---- C04 --------------------------------------------------------------------

pub fn wire_format(ctx: &mut Ctx, types: &[TypeInfo], sec: &str, n: u64) {
    ctx.section(&format!("{sec}reference"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        let mut r = c.rng.clone();
        let Some((v, reference)) = c.no_panic("make-value", t.name, || (t.make)(&mut r)) else { return };
        c.rng = r;
        c.eval();
        let what = format!("type {} value {}", t.name, v.dbg());
        if !reference.is_empty() {
            c.distinct(&[t.name.as_bytes(), &reference].concat());
            c.sample(|| format!("{what} is {}", hex(&reference)));
        }
        match c.no_panic("encode", &what, || encode_big(&*v)) {
            None => {}
            Some(Ok(e)) if e == reference => c.note("encoded-as-specified"),
            Some(other) => c.fail(
                "encoding",
                match other {
                    Ok(e) => format!("got {} want {}; {what}", hex(&e), hex(&reference)),
                    Err(x) => format!("{x:?}; {what}"),
                },
            ),
        }
        let mut b = reference.clone();
        let k = c.rng.below(2) * c.rng.below(9);
        b.extend(c.rng.bytes(k));
        let mut u = UnmarshalBuf::new(&b);
        match c.no_panic("decode", &what, || (t.decode)(&mut u)) {
            None => {}
            Some(Ok(w)) if w.same(&*v) && b.len() - u.len() == reference.len() => c.note("decoded-as-specified"),
            Some(Ok(w)) => c.fail(
                "decoding",
                format!("{} consumed {} of {}; {what}", w.dbg(), b.len() - u.len(), reference.len()),
            ),
            Some(Err(x)) => c.fail("decoding", format!("{x:?} for {}; {what}", hex(&reference))),
        }
        if let Some(vo) = &t.variant {
            let want = reference[..vo.width].iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            if (vo.disc)(&*v) != want {
                c.fail("selector", format!("reports {:x} want {want:x}; {what}", (vo.disc)(&*v)));
            }
            let mut u = UnmarshalBuf::new(&reference[vo.width..]);
            match c.no_panic("decode-variant", &what, || (vo.decode)(want, &mut u)) {
                None => {}
                Some(Ok(w)) if w.same(&*v) && u.is_empty() => c.note("body-decoded-as-specified"),
                Some(other) => c.fail("body-decoding", format!("{:?}; {what}", other.map(|w| w.dbg()))),
            }
        }
    });
}

// ---- C05 --------------------------------------------------------------------

fn judge(c: &mut Case, t: &TypeInfo, b: &[u8], sel: Option<u64>) {
    c.eval();
    let want = match sel {
        None => parse(&t.shape, b),
        Some(s) => parse_body(t.shape.arms().unwrap(), s, b),
    };
    let what = || format!("type {} selector {sel:x?} input {}", t.name, hex(b));
    let mut u = UnmarshalBuf::new(b);
    let Some(got) = c.no_panic("decode", &what(), || dec(t, sel, &mut u)) else { return };
    let used = b.len() - u.len();
    match (want, got) {
        (Ok(n), Ok(_)) if n == used => c.note("accepted"),
        (Ok(n), Ok(_)) => c.fail("consumed", format!("consumed {used}, the structure has {n}; {}", what())),
        (Ok(_), Err(e)) => c.fail("well-formed-rejected", format!("{e:?}; {}", what())),
        (Err(s), Ok(v)) => c.fail("malformed-accepted", format!("as {} (expected {s:03b}); {}", v.dbg(), what())),
        (Err(s), Err(e)) => {
            c.note(ekey(bit(e)));
            if s & bit(e) == 0 {
                c.fail("wrong-error-kind", format!("{e:?}, expected one of {s:03b} (1 end, 2 array, 4 selector); {}", what()));
            }
            let rc = match e {
                Error::UnexpectedEndOfBuffer => 0x904,
                Error::ArrayLengthExceeded => 0x95,
                Error::UnknownSelector => 0x98,
            };
            if TpmRcError::from(e).get() != rc || TssError::from(e).get() != rc {
                c.fail("error-conversion", format!("{e:?} -> {:x}", TpmRcError::from(e).get()));
            }
            c.distinct(&[t.name.as_bytes(), b].concat());
            c.sample(|| format!("{} -> {e:?}", what()));
        }
    }
}

pub fn rejection(ctx: &mut Ctx, types: &[TypeInfo], sec: &str, n: u64) {
    ctx.section(&format!("{sec}inputs"), n, |c| {
        let t = &types[c.index as usize % types.len()];
        for _ in 0..4 {
            let (b, kind) = input(t, &mut c.rng);
            c.note(kind);
            judge(c, t, &b, None);
            if t.variant.is_some() {
                let (sel, body) = variant_input(t, &mut c.rng);
                judge(c, t, &body, Some(sel));
            }
        }
    });
    // Every proper prefix of a well-formed string.
    ctx.section(&format!("{sec}prefixes"), n / 4, |c| {
        let t = &types[c.index as usize % types.len()];
        let b = well_formed(&t.shape, &mut c.rng);
        let step = (b.len() / 150).max(1);
        let mut at = 0;
        while at <= b.len() {
            judge(c, t, &b[..at], None);
            c.note("prefix");
            at += if at < 40 || at + 40 > b.len() { 1 } else { c.rng.range(1, 2 * step) };
        }
        judge(c, t, &b, None);
    });
    // Exact limits of counted and sized types.
    let limits: Vec<(usize, u64)> = types
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t.shape, Shape::B2(_) | Shape::Cnt { .. }))
        .flat_map(|(i, _)| (0..6).map(move |k| (i, k)))
        .collect();
    ctx.section(&format!("{sec}limits"), limits.len() as u64, |c| {
        let (i, k) = limits[c.index as usize];
        let t = &types[i];
        let (w, max, elem) = match &t.shape {
            Shape::B2(m) => (2, *m, Shape::Bytes(1)),
            Shape::Cnt { w, max, elem } => (*w, *max, (**elem).clone()),
            _ => unreachable!(),
        };
        let n = (max + k as usize).saturating_sub(2);
        let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        if n as u64 > mask {
            return;
        }
        for fill in 0..3 {
            let mut b = (n as u64).to_be_bytes()[8 - w..].to_vec();
            for _ in 0..n {
                b.extend(well_formed(&elem, &mut c.rng));
            }
            match fill {
                0 => {}
                1 => b.extend_from_slice(&[0; 9]),
                _ => {
                    b.pop();
                }
            }
            c.note(if n > max { "limit:above" } else { "limit:within" });
            judge(c, t, &b, None);
        }
    });
    // Every 16-bit selector (8-bit: every, 32-bit: near the known ones and sampled).
    let unions: Vec<&TypeInfo> = types.iter().filter(|t| t.variant.is_some()).collect();
    let per = 256u64;
    ctx.section(&format!("{sec}selectors"), unions.len() as u64 * per, |c| {
        let t = unions[(c.index / per) as usize];
        let hi = c.index % per;
        let w = t.shape.sel_width();
        let arms = t.shape.arms().unwrap();
        for lo in 0..256u64 {
            let sel = match w {
                1 => {
                    if hi != 0 {
                        break;
                    }
                    lo
                }
                2 => (hi << 8) | lo,
                _ => match hi {
                    0..=31 => (hi << 8) | lo,
                    32..=63 => ((hi & 31) << (8 + (hi & 15))) | lo,
                    _ => c.rng.u64() & 0xFFFF_FFFF,
                },
            };
            let known = arms.iter().any(|a| a.0 == sel);
            c.note(if known { "selector:known" } else { "selector:unknown" });
            let mut b = sel.to_be_bytes()[8 - w..].to_vec();
            if !known || lo % 2 == 0 {
                let k = c.rng.below(24);
                b.extend(c.rng.bytes(k));
            }
            judge(c, t, &b, None);
            judge(c, t, &b[w..].to_vec(), Some(sel));
        }
    });
}

// ---- declared counts above the capacity ------------------------------------------

/// A value that declares more elements than its array has must be refused for
/// every destination, with the error kind given.
pub fn refused(c: &mut Case, name: &str, what: &str, enc: &dyn Fn(&mut [u8]) -> Result<usize, Error>) {
    for d in [0usize, 1, 2, 3, 4, 5, 8, 16, 100, 1000, 3000, BIG] {
        c.eval();
        let mut b = vec![0x3Cu8; d + 8];
        let Some(r) = c.no_panic("encode-over-count", &format!("destination {d}; {name} {what}"), || enc(&mut b[..d])) else { return };
        match r {
            Ok(n) => {
                c.fail("over-count-encoded", format!("as {n} bytes; {name} {what}"));
                return;
            }
            Err(e) => {
                c.note("over-count-refused");
                if d == BIG && e != Error::ArrayLengthExceeded {
                    c.fail("over-count-kind", format!("{e:?}; {name} {what}"));
                }
            }
        }
        if !all_are(&b[d..], 0x3C) {
            c.fail("wrote-outside-destination", format!("destination {d}; {name} {what}"));
        }
        c.distinct(&[name.as_bytes(), what.as_bytes(), &(d as u32).to_be_bytes()].concat());
    }
}

pub fn above(r: &mut Rng, max: usize, bits: u32) -> u64 {
    let mask = u64::MAX >> (64 - bits);
    (match r.below(5) {
        0 | 1 => max as u64 + 1,
        2 => mask,
        3 => 1 << (bits - 1),
        _ => r.u64() & mask,
    })
    .max(max as u64 + 1)
    .min(mask)
}

pub fn over_count(ctx: &mut Ctx, n: u64) {
    use tpm2_rs_base::marshal::Marshalable;
    use tpm2_rs_base::*;
    ctx.section("over-count", n, |c| {
        let k = above(&mut c.rng, 4, 8) as u8;
        let p = TpmsPcrSelection { hash: TpmiAlgHash(c.rng.u16()), sizeof_select: k, pcr_select: c.rng.bytes(4).try_into().unwrap() };
        refused(c, "TpmsPcrSelection", &format!("sizeof_select {k}"), &|d| p.try_marshal(d));
        let good = TpmsPcrSelection { hash: TpmiAlgHash::SHA256, sizeof_select: 3, pcr_select: [1, 2, 3, 0] };
        let mut l = TpmlPcrSelection::default();
        for _ in 0..c.rng.below(3) {
            let _ = l.add(&good);
        }
        let _ = l.add(&p);
        refused(c, "TpmlPcrSelection", &format!("with sizeof_select {k}"), &|d| l.try_marshal(d));
        let mut t = TpmlTaggedTpmProperty::default();
        t.count = above(&mut c.rng, 127, 32) as u32;
        refused(c, "TpmlTaggedTpmProperty", &format!("count {}", t.count), &|d| t.try_marshal(d));
        let m = TpmsCapabilityData::TpmProperties(t);
        refused(c, "TpmsCapabilityData", &format!("count {}", t.count), &|d| m.try_marshal(d));
        if let Some((n, k)) = c.no_panic("list-read", "count above capacity", || (t.count(), t.tpm_property().len())) {
            if k > 127 || n < k {
                c.fail("over-count-read", format!("count {n}, {k} elements"));
            }
        }
        if let Some(r) = c.no_panic("list-add", "count above capacity", || t.add(&TpmsTaggedProperty::default())) {
            if r.is_ok() {
                c.fail("over-count-add", format!("count {}", t.count));
            }
        }
    });
}

#[cfg(feature = "derived")]
pub fn over_count_user(ctx: &mut Ctx, n: u64) {
    use crate::derived::*;
    use tpm2_rs_base::marshal::Marshalable;
    ctx.section("user-over-count", n, |c| {
        let k = above(&mut c.rng, 5, 8) as u8;
        let v = DList8 { tally: k, items: [7; 5] };
        refused(c, "DList8", &format!("count {k}"), &|d| v.try_marshal(d));
        let e = DEnum32::Max(v);
        refused(c, "DEnum32", &format!("count {k}"), &|d| e.try_marshal(d));
        let k = above(&mut c.rng, 7, 16) as u16;
        let v = DListFar { tally: k, mid: 1, fixed: [1, 2, 3], items: [3; 7], trailer: 9 };
        refused(c, "DListFar", &format!("count {k}"), &|d| v.try_marshal(d));
        let k = above(&mut c.rng, 3, 32) as u32;
        let v = DList32 { tally: k, items: [3; 3] };
        refused(c, "DList32", &format!("count {k}"), &|d| v.try_marshal(d));
        let k = above(&mut c.rng, 0, 16) as u16;
        let v = DListNone { tally: k, items: [], trailer: 1 };
        refused(c, "DListNone", &format!("count {k}"), &|d| v.try_marshal(d));
        // More than the shorter of two arrays with one count.
        let k = c.rng.range(5, 6) as u8;
        let v = DListShared { tally: k, names: [DPair::default(); 6], values: [1; 4] };
        refused(c, "DListShared", &format!("count {k}"), &|d| v.try_marshal(d));
        // A structure that does not fit a 16-bit size.
        if c.index < 20 {
            use tpm2_rs_base::Tpm2bStruct;
            let mut h = Box::new(DHuge { tally: 0, payload: [5; 70_000] });
            for n in [65_531u32, 65_532, 65_533, 65_536, 70_000] {
                h.tally = n;
                c.eval();
                let Some(r) = c.no_panic("from_struct", &format!("{n} elements"), || DBufHuge::from_struct(&h).map(Box::new)) else { return };
                match r {
                    Ok(w) if n + 4 <= 65_535 => {
                        use tpm2_rs_base::Tpm2bSimple;
                        if w.get_size() as u32 != n + 4 || w.get_buffer()[4..] != h.payload[..n as usize] {
                            c.fail("wrapped-contents", format!("{n} elements: size {}", w.get_size()));
                        }
                        if !matches!(w.to_struct(), Ok(x) if x.tally == n) {
                            c.fail("unwrapped", format!("{n} elements"));
                        }
                    }
                    Err(_) if n + 4 > 65_535 => c.note("wrap:too-large-refused"),
                    r => c.fail("wrap-too-large", format!("{n} elements: {:?}", r.map(|_| ()))),
                }
            }
        }
    });
}

/// Values with contents beyond their count, which are not part of the encoding.
pub fn hidden(ctx: &mut Ctx, n: u64) {
    use tpm2_rs_base::*;
    let pcr = info::<TpmsPcrSelection>("TpmsPcrSelection");
    let props = info::<TpmlTaggedTpmProperty>("TpmlTaggedTpmProperty");
    let list = info::<TpmlPcrSelection>("TpmlPcrSelection");
    ctx.section("hidden-contents", n, |c| {
        let k = c.rng.below(5) as u8;
        let p = TpmsPcrSelection { hash: TpmiAlgHash(c.rng.u16()), sizeof_select: k, pcr_select: c.rng.bytes(4).try_into().unwrap() };
        value_roundtrip(c, &pcr, &p, k == 4);
        let l = TpmlPcrSelection::new(&[p, p]).unwrap();
        value_roundtrip(c, &list, &l, k == 4);
        let mut t = TpmlTaggedTpmProperty::default();
        for _ in 0..c.rng.below(128) {
            let x = TpmsTaggedProperty::arb(&mut c.rng, &mut vec![]);
            let _ = t.add(&x);
        }
        let cut = c.rng.below(t.count as usize + 1) as u32;
        t.count -= cut;
        c.note("hidden-contents");
        value_roundtrip(c, &props, &t, cut == 0);
    });
}
