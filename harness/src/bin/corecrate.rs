//! C18, C20: response codes and the core crate's codecs.
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use tpm2::errors::*;
use tpm2::*;
use tpm2_rs_marshalable::Error as WireError;
use tpmcheck::*;

// ---- C18 -------------------------------------------------------------------------------

const KINDS: [(ErrorType, u32); 3] = [(ErrorType::Handle, 0), (ErrorType::Parameter, 0x40), (ErrorType::Session, 0x800)];
const POSITIONS: [ErrorPosition; 15] = [
    ErrorPosition::Pos1,
    ErrorPosition::Pos2,
    ErrorPosition::Pos3,
    ErrorPosition::Pos4,
    ErrorPosition::Pos5,
    ErrorPosition::Pos6,
    ErrorPosition::Pos7,
    ErrorPosition::Pos8,
    ErrorPosition::Pos9,
    ErrorPosition::PosA,
    ErrorPosition::PosB,
    ErrorPosition::PosC,
    ErrorPosition::PosD,
    ErrorPosition::PosE,
    ErrorPosition::PosF,
];
type Builder = fn(ErrorType, ErrorPosition) -> TpmRcError;
const BUILDERS: [(&str, Builder, u32); 4] = [
    ("AsymmetricFor", TpmRcError::AsymmetricFor, 0x81),
    ("ValueFor", TpmRcError::ValueFor, 0x84),
    ("SizeFor", TpmRcError::SizeFor, 0x95),
    ("SelectorFor", TpmRcError::SelectorFor, 0x98),
];
const CODES: [(&str, TpmRcError, u32); 15] = [
    ("Asymmetric", TpmRcError::Asymmetric, 0x81),
    ("Value", TpmRcError::Value, 0x84),
    ("Size", TpmRcError::Size, 0x95),
    ("Selector", TpmRcError::Selector, 0x98),
    ("BadTag", TpmRcError::BadTag, 0x1e),
    ("Initialize", TpmRcError::Initialize, 0x100),
    ("Failure", TpmRcError::Failure, 0x101),
    ("Sequence", TpmRcError::Sequence, 0x103),
    ("CommandSize", TpmRcError::CommandSize, 0x142),
    ("CommandCode", TpmRcError::CommandCode, 0x143),
    ("ContextGap", TpmRcError::ContextGap, 0x901),
    ("ObjectMemory", TpmRcError::ObjectMemory, 0x902),
    ("SessionMemory", TpmRcError::SessionMemory, 0x903),
    ("Memory", TpmRcError::Memory, 0x904),
    ("Value", TpmRcError::Value, 0x84),
];

/// All conversions of an error keep its number.
fn converts(c: &mut Case, what: &str, e: TssError, n: u32) {
    c.eval();
    let via = TssError::try_from(n);
    if e.get() != n || via != Ok(e) {
        c.fail(format!("value:{what}"), format!("{what} is {:#x} as a general error ({via:?}), should be {n:#x}", e.get()));
    }
    #[cfg(feature = "net")]
    {
        let io = std::io::Error::from(e);
        let text = io.to_string();
        c.eval();
        match io.get_ref().and_then(|x| x.downcast_ref::<TssError>()) {
            Some(x) if *x == e && text == e.to_string() => c.note("io-error"),
            x => c.fail(format!("io:{what}"), format!("{what}: the I/O error carries {x:?} and reads {text:?}")),
        }
    }
}

fn rc(c: &mut Case, what: &str, e: TpmRcError, n: u32, part: Option<(ErrorType, ErrorPosition)>) {
    c.eval();
    c.note("codes");
    c.distinct(what.as_bytes());
    if e.get() != n {
        c.fail(format!("value:{what}"), format!("{what} is {:#x}, should be {n:#x}", e.get()));
    }
    let warning = n & 0x80 == 0 && n & 0x100 != 0 && n & 0x800 != 0;
    if e.is_warning() != warning {
        c.fail(format!("warning:{what}"), format!("{what} = {n:#x}: warning {}, should be {warning}", e.is_warning()));
    }
    if warning {
        c.note("warnings");
    }
    if part.is_some() {
        c.note("positions");
    }
    let got = e.format1_parameter();
    if got != part {
        c.fail(format!("part:{what}"), format!("{what} = {n:#x} decodes to {got:?}, should be {part:?}"));
    }
    converts(c, what, e.into(), n);
    c.sample(|| format!("{what} {n:#x} {got:?} warning {warning}"));
}

fn built(c: &mut Case) {
    let i = c.index as usize;
    let (name, f, base) = BUILDERS[i % 4];
    let (kind, bits) = KINDS[i / 4 % 3];
    let pos = POSITIONS[i / 12];
    let what = format!("{name}({kind:?},{pos:?})");
    let Some(e) = c.no_panic(&what, "", || f(kind, pos)) else { return };
    let k = i as u32 / 12 + 1;
    if bits != 0x40 && k > 7 {
        // The specification has no such position.
        c.note("unrepresentable");
        return;
    }
    rc(c, &what, e, base | bits | k << 8, Some((kind, pos)));
}

macro_rules! layer {
    ($c:expr, $all:expr, $t:ident, $layer:expr) => {{
        for (name, e, n) in [
            ("GeneralFailure", $t::GeneralFailure, 2u32),
            ("BadParameter", $t::BadParameter, 3),
            ("InternalError", $t::InternalError, 4),
            ("OutOfMemory", $t::OutOfMemory, 5),
            ("NotImplemented", $t::NotImplemented, 6),
            ("KeyAlredyRegistered", $t::KeyAlredyRegistered, 8),
            ("TpmUnexpected", $t::TpmUnexpected, 16),
            ("CommFailure", $t::CommFailure, 17),
            ("Timeout", $t::Timeout, 18),
            ("Unsupported", $t::Unsupported, 20),
            ("Canceled", $t::Canceled, 22),
        ] {
            let what = format!("{}::{name}", stringify!($t));
            $c.note("layer-codes");
            $c.distinct(what.as_bytes());
            converts($c, &what, e.into(), n | $layer << 12);
            $all.push((what, TssError::from(e)));
        }
    }};
}

fn named(c: &mut Case) {
    for (name, e, n) in CODES {
        rc(c, name, e, n, None);
    }
    let mut all: Vec<(String, TssError)> = vec![];
    layer!(c, all, TssTddlError, 1u32);
    layer!(c, all, TssTcsError, 2u32);
    layer!(c, all, TssTspError, 3u32);
    for (name, e, _) in &CODES[..14] {
        all.push((name.to_string(), (*e).into()));
    }
    let mut seen: HashMap<u32, String> = HashMap::new();
    for (n, e) in &all {
        c.eval();
        if let Some(o) = seen.insert(e.get(), n.clone()) {
            c.fail("collision", format!("{n} and {o} are both {:#x}", e.get()));
        }
    }
    // Codec errors.
    for (e, want) in [
        (WireError::ArrayLengthExceeded, TpmRcError::Size),
        (WireError::UnexpectedEndOfBuffer, TpmRcError::Memory),
        (WireError::UnknownSelector, TpmRcError::Selector),
    ] {
        c.eval();
        c.note("codec-errors");
        c.distinct(format!("{e:?}").as_bytes());
        let (a, b) = (TpmRcError::from(e), TssError::from(e));
        if a != want || b != TssError::from(want) {
            c.fail(format!("codec:{e:?}"), format!("{e:?} becomes {:#x} and {:#x}, should be {:#x}", a.get(), b.get(), want.get()));
        }
        if e.to_string().is_empty() {
            c.fail("codec-text", format!("{e:?} has no description"));
        }
    }
    c.eval();
    if TssError::try_from(0).is_ok() {
        c.fail("zero", "0 is an error");
    }
    c.note("zero");
}

/// Every 32-bit value: an error exactly if it is not zero, with that value.
fn every_code(c: &mut Case, span: u64) {
    let lo = c.index * span;
    let mut bad = None;
    for v in lo..lo + span {
        let v = v as u32;
        let r = TssError::try_from(v);
        let fine = match r {
            Ok(e) => e.get() == v && v != 0,
            Err(TssErrorCannotBeZero) => v == 0,
        };
        if !fine {
            bad = Some((v, r));
            break;
        }
    }
    c.evals(span);
    c.distinct_n(span);
    c.note_n("numbers", span);
    if let Some((v, r)) = bad {
        c.fail("number", format!("{v:#x} becomes {r:?}"));
    }
}

fn c18(ctx: &mut Ctx) {
    ctx.section("built", 180, built);
    ctx.section("named", 1, named);
    let shards = ctx.n(1, 1024, 1024);
    let span = (1u64 << 32) / 1024;
    let tiny = ctx.tier == Tier::Tiny;
    ctx.section("numbers", shards, move |c| every_code(c, if tiny { 4096 } else { span }));
    ctx.rule = "Every builder x kind x position (4 x 3 x 15), every named code of every layer, and every 32-bit number as a general error; the oracle is the table of numbers in the specification. Codes are distinct by construction.".into();
    ctx.exhaustive = !tiny;
    for (k, m) in [("codes", 115), ("positions", 100), ("unrepresentable", 64), ("warnings", 4), ("layer-codes", 33), ("codec-errors", 3), ("numbers", 1 << 32), ("io-error", if cfg!(feature = "net") { 148 } else { 0 })] {
        ctx.require(k, m);
    }
}

// ---- C20 -------------------------------------------------------------------------------

const HASHES: [(TpmiAlgHash, u16, usize); 8] = [
    (TpmiAlgHash::Sha1, 4, 20),
    (TpmiAlgHash::Sha256, 0xb, 32),
    (TpmiAlgHash::Sha384, 0xc, 48),
    (TpmiAlgHash::Sha512, 0xd, 64),
    (TpmiAlgHash::Sm3_256, 0x12, 32),
    (TpmiAlgHash::Sha3_256, 0x27, 32),
    (TpmiAlgHash::Sha3_384, 0x28, 48),
    (TpmiAlgHash::Sha3_512, 0x29, 64),
];
#[derive(Clone, Copy, Debug)]
struct Only(u8);
impl Limits for Only {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        HASHES.iter().position(|x| x.0 == h).is_some_and(|i| self.0 >> i & 1 == 1)
    }
}
impl Only {
    fn max(self) -> usize {
        (0..8).filter(|i| self.0 >> i & 1 == 1).map(|i| HASHES[i].2).max().unwrap_or(0)
    }
}

/// Encodes into buffers of every length around the right one.
fn encodes<T: Marshal + Debug>(c: &mut Case, what: &str, v: &T, lim: Only, want: Option<&[u8]>, size: usize, max: Option<usize>) {
    c.eval();
    c.note(&format!("encode:{what}"));
    let (s, m) = (v.marshaled_size(), T::marshaled_size_max(lim));
    if s != size {
        c.fail(format!("size:{what}"), format!("{v:?} reports the size {s}, its encoding has {size}"));
    }
    if max.is_some_and(|x| x != m) || (want.is_some() && m < size) {
        c.fail(format!("max-size:{what}"), format!("{what} under {lim:?} declares at most {m}, {v:?} has {size}"));
    }
    for len in (0..=size + 3).chain([size + 40]) {
        if len + 3 < size && !c.rng.chance(1, 4) {
            continue;
        }
        let canary = c.rng.u8();
        let mut b = vec![canary; len + 8];
        let base = b.as_ptr() as usize;
        let r = {
            let b = &mut b;
            c.no_panic(&format!("marshal:{what}"), &format!("{v:?} into {len}"), || {
                v.marshal(lim, &mut b[..len]).map(|r| (r.as_ptr() as usize, r.len()))
            })
        };
        let Some(r) = r else { return };
        c.eval();
        let fits = len >= size && want.is_some();
        match r {
            Ok((at, n)) => {
                if !fits {
                    c.fail(format!("encoded-anyway:{what}"), format!("{v:?} under {lim:?} into {len} bytes succeeds"));
                } else if b[..size] != *want.unwrap() || at != base + size || n != len - size {
                    c.fail(
                        format!("encoding:{what}"),
                        format!("{v:?} into {len}: {} and {n} left at {}, should be {}", hex(&b[..size]), at.wrapping_sub(base), hex(want.unwrap())),
                    );
                } else if b[size..].iter().any(|x| *x != canary) {
                    c.fail(format!("overrun:{what}"), format!("{v:?} into {len}: bytes beyond {size} were written"));
                } else {
                    c.note("encoded");
                }
            }
            Err(_) if fits => c.fail(format!("not-encoded:{what}"), format!("{v:?} under {lim:?} into {len} bytes fails")),
            Err(_) => {
                c.note("encode-refused");
                if b[len..].iter().any(|x| *x != canary) {
                    c.fail(format!("overrun:{what}"), format!("{v:?} into {len}: bytes beyond the buffer were written"));
                }
            }
        }
    }
}

/// Decodes with `rest` unread bytes behind, and every truncation.
fn decodes<'s, T: Unmarshal<'s> + PartialEq + Debug + Clone>(
    c: &mut Case,
    what: &str,
    init: T,
    lim: Only,
    input: &'s [u8],
    size: usize,
    want: Option<&T>,
) {
    c.note(&format!("decode:{what}"));
    for len in 0..=input.len() {
        if len + 2 < size && !c.rng.chance(1, 4) {
            continue;
        }
        let mut v = init.clone();
        let b = &input[..len];
        let r = {
            let v = &mut v;
            c.no_panic(&format!("unmarshal:{what}"), &hex(b), || v.unmarshal(lim, b))
        };
        let Some(r) = r else { return };
        c.eval();
        let ok = len >= size && want.is_some();
        match r {
            Ok(rest) => {
                if !ok {
                    c.fail(format!("decoded-anyway:{what}"), format!("{} under {lim:?} decodes to {v:?}", hex(b)));
                } else if Some(&v) != want || rest.as_ptr() != b[size..].as_ptr() || rest.len() != len - size {
                    c.fail(
                        format!("decoding:{what}"),
                        format!("{} decodes to {v:?} with {} left, should be {want:?}", hex(b), rest.len()),
                    );
                } else {
                    c.note("decoded");
                }
            }
            Err(_) if ok => c.fail(format!("not-decoded:{what}"), format!("{} under {lim:?} fails", hex(b))),
            Err(_) => c.note("decode-refused"),
        }
    }
}

fn ints(c: &mut Case) {
    let lim = Only(c.rng.u8());
    let extra = c.rng.below(5);
    let tail = c.rng.bytes(extra);
    macro_rules! int {
        ($($t:ident $bits:expr),*) => {$({
            let v = c.rng.edgy_u64($bits) as $t;
            let mut want = vec![];
            for i in (0..$bits / 8).rev() {
                want.push((v as u64 >> (8 * i)) as u8);
            }
            let name = stringify!($t);
            encodes(c, name, &v, lim, Some(&want), $bits / 8, Some($bits / 8));
            let input = [&want[..], &tail].concat();
            decodes(c, name, !v, lim, &input, $bits / 8, Some(&v));
            let mut arr = [0u8; $bits / 8];
            v.marshal_array(&mut arr);
            c.eval();
            if arr[..] != want[..] || <$t as UnmarshalArray>::unmarshal_array(&arr) != Ok(v) || <$t as MarshalArray>::SIZE != $bits / 8 {
                c.fail(format!("array:{name}"), format!("{v}: {}", hex(&arr)));
            }
            c.distinct(&input);
        })*};
    }
    int!(u8 8, u16 16, u32 32, u64 64, i8 8, i16 16, i32 32, i64 64);
    fn bytes<const N: usize>(c: &mut Case, lim: Only) {
        let v: [u8; N] = std::array::from_fn(|_| c.rng.u8());
        encodes(c, "bytes", &v, lim, Some(&v), N, Some(N));
        let mut a = [0u8; N];
        v.marshal_array(&mut a);
        if a != v || <[u8; N] as MarshalArray>::SIZE != N {
            c.fail("array:bytes", hex(&a));
        }
        c.distinct(&v);
    }
    match c.index % 6 {
        0 => bytes::<0>(c, lim),
        1 => bytes::<1>(c, lim),
        2 => bytes::<20>(c, lim),
        3 => bytes::<64>(c, lim),
        4 => bytes::<333>(c, lim),
        _ => bytes::<48>(c, lim),
    }
    c.sample(|| format!("all integer types with {extra} bytes behind under {lim:?}"));
}

/// A type of the user's, with only the array methods.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Pair(u16, bool);
impl MarshalArray for Pair {
    const SIZE: usize = 3;
    type Array = [u8; 3];
    fn marshal_array(&self, arr: &mut [u8; 3]) {
        *arr = [(self.0 >> 8) as u8, self.0 as u8, self.1 as u8];
    }
}
impl UnmarshalArray for Pair {
    type Error = UnmarshalError;
    fn unmarshal_array(a: &[u8; 3]) -> Result<Pair, UnmarshalError> {
        match a[2] {
            0 | 1 => Ok(Pair(u16::from_be_bytes([a[0], a[1]]), a[2] == 1)),
            _ => Err(UnmarshalError),
        }
    }
}

fn user_types(c: &mut Case) {
    let lim = Only(c.rng.u8());
    let raw = c.rng.bytes(7);
    let flag = c.rng.below(4) as u8;
    let input = [raw[0], raw[1], flag, raw[3], raw[4]];
    let v = Pair(u16::from_be_bytes([raw[0], raw[1]]), flag == 1);
    decodes(c, "user", Pair(7, false), lim, &input, 3, if flag < 2 { Some(&v) } else { None });
    encodes(c, "user", &v, lim, Some(&[raw[0], raw[1], (flag == 1) as u8]), 3, Some(3));
    c.distinct(&input);
}

/// Every 16-bit algorithm identifier.
fn algorithms(c: &mut Case) {
    for lo in 0..256u32 {
        let id = (c.index as u16) << 8 | lo as u16;
        let lim = Only(c.rng.u8());
        let tail = c.rng.bytes(2);
        let input = [(id >> 8) as u8, id as u8, tail[0], tail[1]];
        let h = HASHES.iter().find(|x| x.1 == id);
        c.distinct(&id.to_be_bytes());
        decodes(c, "Alg", Alg(!id), lim, &input, 2, Some(&Alg(id)));
        decodes(c, "TpmiAlgHash", TpmiAlgHash::Sha1, lim, &input, 2, h.map(|x| &x.0));
        // A decoder that keeps the value it had is noticed from another one.
        decodes(c, "TpmiAlgHash", TpmiAlgHash::Sha3_512, lim, &input, 2, h.map(|x| &x.0));
        c.eval();
        match (TpmiAlgHash::try_from(Alg(id)), h) {
            (Ok(x), Some(h)) if x == h.0 => {
                c.note("hash-identifiers");
                if Alg::from(x) != Alg(id) || x.digest_size() != h.2 {
                    c.fail("hash", format!("{x:?} is {:?} with {} bytes", Alg::from(x), x.digest_size()));
                }
                encodes(c, "TpmiAlgHash", &x, lim, Some(&input[..2]), 2, Some(2));
            }
            (Err(HashError), None) => c.note("other-identifiers"),
            (r, _) => c.fail("hash", format!("identifier {id:#x} becomes {r:?}")),
        }
        if lo % 16 == 0 {
            encodes(c, "Alg", &Alg(id), lim, Some(&input[..2]), 2, Some(2));
        }
    }
}

fn ha<'a>(i: usize, d: &'a [u8]) -> TpmtHa<'a> {
    match i {
        0 => TpmtHa::Sha1(d[..20].try_into().unwrap()),
        1 => TpmtHa::Sha256(d[..32].try_into().unwrap()),
        2 => TpmtHa::Sha384(d[..48].try_into().unwrap()),
        _ => TpmtHa::Sha512(d[..64].try_into().unwrap()),
    }
}

/// Tagged digests under every limit configuration.
fn digests(c: &mut Case) {
    let lim = Only(c.index as u8);
    c.eval();
    if lim.max_digest_size() != lim.max() {
        c.fail("max-digest", format!("{lim:?}: largest digest {} should be {}", lim.max_digest_size(), lim.max()));
    }
    for i in 0..4 {
        let (h, id, n) = HASHES[i];
        let extra = c.rng.below(8);
        let mut d = c.rng.bytes(n);
        d.extend(c.rng.bytes(extra));
        if c.rng.chance(1, 4) {
            d[n..].fill(0);
        }
        let v = ha(i, &d);
        let mut enc = id.to_be_bytes().to_vec();
        enc.extend_from_slice(&d[..n]);
        let ok = lim.supports_hash(h);
        c.eval();
        if v.hash_alg() != h || v.digest() != &d[..n] {
            c.fail("digest-parts", format!("{v:?} is {:?} {}", v.hash_alg(), hex(v.digest())));
        }
        encodes(c, "TpmtHa", &v, lim, if ok { Some(&enc) } else { None }, n + 2, None);
        if ok && v.marshaled_size() > TpmtHa::marshaled_size_max(lim) {
            c.fail("max-size:TpmtHa", format!("{v:?} under {lim:?} is larger than the declared maximum"));
        }
        c.note(if ok { "supported" } else { "unsupported" });
        enc.extend_from_slice(&d[n..]);
        let other = c.rng.bytes(64);
        let init = ha((i + 1 + c.rng.below(3)) % 4, &other);
        decodes(c, "TpmtHa", init, lim, &enc, n + 2, if ok { Some(&v) } else { None });
        c.distinct(&[&[lim.0][..], &enc].concat());
        c.sample(|| format!("{lim:?} {v:?} with {extra} bytes behind"));
    }
    // Other identifiers, among them hash algorithms the type does not have.
    for _ in 0..40 {
        let id = match c.rng.below(3) {
            0 => HASHES[c.rng.range(4, 7)].1,
            1 => c.rng.below(64) as u16,
            _ => c.rng.u16(),
        };
        if HASHES[..4].iter().any(|h| h.1 == id) {
            continue;
        }
        let len = c.rng.len_upto(70);
        let mut b = id.to_be_bytes().to_vec();
        b.extend(c.rng.bytes(len));
        let d = [0; 64];
        let mut v = ha(c.rng.below(4), &d);
        let r = {
            let (v, b) = (&mut v, &b);
            c.no_panic("unmarshal:TpmtHa", &hex(b), || v.unmarshal(lim, b).map(|r| r.len()))
        };
        let Some(r) = r else { return };
        c.eval();
        c.note("other-digest");
        let h = HASHES.iter().find(|h| h.1 == id);
        match (r, h) {
            (Err(_), _) => {}
            (Ok(_), None) => c.fail("decoded-anyway:TpmtHa", format!("{} decodes to {v:?}", hex(&b))),
            (Ok(rest), Some(h)) => {
                if !lim.supports_hash(h.0) || rest + 2 + h.2 != b.len() || v.digest() != &b[2..2 + h.2] {
                    c.fail("decoding:TpmtHa", format!("{} decodes to {v:?} with {rest} left under {lim:?}", hex(&b)));
                }
            }
        }
    }
}

fn arbitrary(c: &mut Case) {
    // Byte strings without any structure.
    let n = c.rng.len_upto(80);
    let mut b = c.rng.bytes(n);
    if n >= 2 && c.rng.chance(3, 4) {
        let id = HASHES[c.rng.below(8)].1.to_be_bytes();
        b[..2].copy_from_slice(&id);
    }
    let lim = Only(c.rng.u8());
    let d = [0; 64];
    let mut v = ha(c.rng.below(4), &d);
    c.eval();
    c.distinct(&b);
    let Some(r) = ({
        let (v, b) = (&mut v, &b);
        c.no_panic("unmarshal:TpmtHa", &hex(b), || v.unmarshal(lim, b).map(|r| r.len()))
    }) else {
        return;
    };
    if let Ok(rest) = r {
        c.note("arbitrary-decoded");
        let mut o = vec![0; 80];
        let used = b.len() - rest;
        let back = v.marshal(lim, &mut o).map(|r| r.len());
        if back != Ok(80 - used) || o[..used] != b[..used] || v.marshaled_size() != used || used > TpmtHa::marshaled_size_max(lim) {
            c.fail("round-trip:TpmtHa", format!("{} decodes to {v:?}, encoded {back:?} {}", hex(&b), hex(&o[..used])));
        }
    } else {
        c.note("arbitrary-refused");
    }
}

fn c20(ctx: &mut Ctx) {
    let n = ctx.n(4, 20_000, 1_000_000);
    ctx.section("ints", n, ints);
    let n = ctx.n(8, 10_000, 200_000);
    ctx.section("user-types", n, user_types);
    let tiny = ctx.tier == Tier::Tiny;
    ctx.section("algorithms", if tiny { 1 } else { 256 }, algorithms);
    let n = ctx.n(8, 256 * 16, 256 * 400);
    ctx.section("digests", n, digests);
    let n = ctx.n(50, 300_000, 10_000_000);
    ctx.section("arbitrary", n, arbitrary);
    ctx.rule = "Values of every core type are encoded into buffers of every length around their size and decoded from their encoding with bytes behind it and from every truncation, under every subset of supported hash algorithms; all 65536 algorithm identifiers are tried. Reference encodings are computed by the harness. Non-trivial cases are distinct (encoding, limits).".into();
    let mut kinds = BTreeSet::new();
    for t in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "user", "Alg", "TpmiAlgHash", "TpmtHa"] {
        kinds.insert(format!("encode:{t}"));
        kinds.insert(format!("decode:{t}"));
    }
    for k in kinds {
        ctx.require(&k, 8);
    }
    for (k, m) in [("encode:bytes", 1000), ("hash-identifiers", 8), ("other-identifiers", 65528), ("supported", 1000), ("unsupported", 1000), ("arbitrary-decoded", 1000), ("other-digest", 10000)] {
        ctx.require(k, m);
    }
}

fn main() {
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C18" => c18(&mut ctx),
        "C20" => c20(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
