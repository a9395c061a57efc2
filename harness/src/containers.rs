//! C06 and C07: sized buffers, lists and structured sized buffers.
use crate::checks::*;
use crate::ctx::*;
use crate::rng::Rng;
use crate::shape::*;
use crate::types::*;
use std::fmt::Debug;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;

// ---- sized buffers ------------------------------------------------------------

pub struct BufOps {
    pub name: &'static str,
    pub run: fn(&mut Case, &'static str),
}

fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => {
            let mut b = r.bytes(n);
            let z = r.below(n + 1);
            b[n - z..].fill(0);
            b
        }
        _ => r.bytes(n),
    }
}

fn check_buf<T: Tpm2bSimple + AsRef<[u8]> + Marshalable + Debug>(c: &mut Case, name: &str, how: &str, v: &T, b: &[u8]) {
    if v.get_size() as usize != b.len() || v.get_buffer() != b || v.as_ref() != b {
        c.fail(
            "buffer-contents",
            format!("{name} {how} of {}: size {} contents {} as_ref {}", hex(b), v.get_size(), hex(v.get_buffer()), hex(v.as_ref())),
        );
    }
}

pub fn buf_case<T>(c: &mut Case, name: &'static str)
where
    T: Tpm2bSimple + AsRef<[u8]> + Marshalable + Debug + Default + PartialEq + Clone,
{
    let cap = T::MAX_BUFFER_SIZE.min(65535);
    let d = T::default();
    check_buf(c, name, "default", &d, &[]);
    for _ in 0..6 {
        c.eval();
        let n = match c.rng.below(10) {
            0 => cap + 1,
            1 => cap + 1 + c.rng.below(40),
            2 => 65536 + c.rng.below(2 * cap.min(300) + 2),
            3 => 65535,
            4 => 65536,
            5 => cap,
            _ => c.rng.len_upto(cap),
        };
        let n = if n > 9000 && cap < 9000 && c.rng.chance(3, 4) { cap + 1 } else { n };
        let b = content(&mut c.rng, n);
        let what = format!("{name}::from_bytes of {n} bytes");
        let Some(r) = c.no_panic("from_bytes", &what, || T::from_bytes(&b)) else { continue };
        let v = match r {
            Err(e) => {
                c.note("buffer:refused");
                if n <= cap {
                    c.fail("buffer-refused", format!("{what} (capacity {cap}): {e:?}"));
                }
                continue;
            }
            Ok(v) => v,
        };
        c.note("buffer:made");
        c.distinct(&[name.as_bytes(), &b].concat());
        if n > cap {
            c.fail("buffer-over-capacity", format!("{what} (capacity {cap}) succeeded"));
            continue;
        }
        check_buf(c, name, "from_bytes", &v, &b);
        if (v == d) != b.is_empty() {
            c.fail("buffer-equality", format!("{what}: equality with the default is {}", v == d));
        }
        // Encoded and decoded.
        let mut e = vec![0u8; n + 2];
        let mut want = (n as u16).to_be_bytes().to_vec();
        want.extend_from_slice(&b);
        match c.no_panic("encode", &what, || v.try_marshal(&mut e)) {
            Some(Ok(k)) if k == n + 2 && e == want => {}
            Some(r) => c.fail("buffer-encoding", format!("{r:?} {}; {what} {}", hex(&e), hex(&b))),
            None => {}
        }
        let mut u = UnmarshalBuf::new(&want);
        match c.no_panic("decode", &what, || T::try_unmarshal(&mut u)) {
            Some(Ok(w)) => {
                check_buf(c, name, "decoded", &w, &b);
                if w != v {
                    c.fail("buffer-equality", format!("decoded {} differs from the built one; {what}", hex(&b)));
                }
            }
            Some(Err(x)) => c.fail("buffer-decoding", format!("{x:?}; {what} {}", hex(&b))),
            None => {}
        }
        // Equal exactly if the contents are.
        let mut b2 = b.clone();
        match c.rng.below(4) {
            0 if n < cap => b2.push(0),
            1 if n > 0 => {
                b2.pop();
            }
            2 if n > 0 => {
                let i = c.rng.below(n);
                b2[i] ^= 1 << c.rng.below(8);
            }
            _ => {}
        }
        match c.no_panic("from_bytes", &what, || T::from_bytes(&b2)) {
            Some(Ok(w)) => {
                c.note("buffer:compared");
                if (w == v) != (b == b2) {
                    c.fail("buffer-equality", format!("{name}: {} == {} is {}", hex(&b), hex(&b2), w == v));
                }
            }
            Some(Err(e)) => c.fail("buffer-refused", format!("{name}::from_bytes of {} bytes: {e:?}", b2.len())),
            None => {}
        }
    }
}

macro_rules! bufops {
    ($($t:ty),* $(,)?) => { vec![$(BufOps { name: stringify!($t), run: buf_case::<$t> }),*] };
}
pub fn library_buffers() -> Vec<BufOps> {
    bufops![
        Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
        Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
        Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
        Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData,
    ]
}
pub fn buffers(ctx: &mut Ctx, ops: &[BufOps], sec: &str, n: u64) {
    ctx.section(&format!("{sec}buffers"), n, |c| {
        let o = &ops[c.index as usize % ops.len()];
        (o.run)(c, o.name);
    });
}

// ---- lists --------------------------------------------------------------------

pub trait List: Wire + Default {
    type E: Wire;
    const MAX: usize;
    const NAME: &'static str;
    fn make(e: &[Self::E]) -> Result<Self, TpmRcError>;
    fn push(&mut self, e: &Self::E) -> Result<(), TpmRcError>;
    fn len(&self) -> usize;
    fn items(&self) -> &[Self::E];
}
macro_rules! list {
    ($($t:ident . $f:ident [$max:expr] of $e:ty),* $(,)?) => {$(
        impl List for $t {
            type E = $e;
            const MAX: usize = $max;
            const NAME: &'static str = stringify!($t);
            fn make(e: &[$e]) -> Result<Self, TpmRcError> { $t::new(e) }
            fn push(&mut self, e: &$e) -> Result<(), TpmRcError> { self.add(e) }
            fn len(&self) -> usize { self.count() }
            fn items(&self) -> &[$e] { self.$f() }
        }
    )*
        fn list_runs() -> Vec<fn(&mut Case)> { vec![$(list_case::<$t>),*] }
    };
}
list! {
    TpmlPcrSelection.pcr_selections[16] of TpmsPcrSelection, TpmlAlgProperty.alg_properties[127] of TpmsAlgProperty,
    TpmlHandle.handle[254] of TpmHandle, TpmlCc.command_codes[254] of TpmCc,
    TpmlTaggedTpmProperty.tpm_property[127] of TpmsTaggedProperty, TpmlTaggedPcrProperty.pcr_property[84] of TpmsTaggedPcrSelect,
    TpmlEccCurve.ecc_curves[508] of TpmEccCurve, TpmlTaggedPolicy.policies[14] of TpmsTaggedPolicy,
    TpmlDigest.digests[8] of Tpm2bDigest,
}

fn list_case<L: List>(c: &mut Case) {
    let name = L::NAME;
    let mut l = L::default();
    // (element, its reference encoding)
    let mut model: Vec<(L::E, Vec<u8>)> = vec![];
    let elem = |r: &mut Rng| {
        let mut b = vec![];
        let e = L::E::arb(r, &mut b);
        (e, b)
    };
    let ops = c.rng.range(1, 8);
    let mut log = String::new();
    for _ in 0..ops {
        c.eval();
        match c.rng.below(6) {
            0 | 1 => {
                let n = match c.rng.below(5) {
                    0 => L::MAX + 1,
                    1 => L::MAX + 1 + c.rng.below(20),
                    2 => L::MAX,
                    _ => c.rng.len_upto(L::MAX),
                };
                let m: Vec<_> = (0..n).map(|_| elem(&mut c.rng)).collect();
                let es: Vec<L::E> = m.iter().map(|x| x.0.clone()).collect();
                log += &format!(" new({n})");
                let Some(r) = c.no_panic("list-new", &format!("{name}:{log}"), || L::make(&es)) else { return };
                match r {
                    Ok(x) if n <= L::MAX => {
                        c.note("list:made");
                        l = x;
                        model = m;
                    }
                    Err(e) if n > L::MAX && e.get() == 0x95 => c.note("list:new-refused"),
                    r => {
                        c.fail("list-new", format!("{name}:{log} gave {:?}", r.map(|_| ()).map_err(|e| e.get())));
                        return;
                    }
                }
            }
            2 | 3 | 4 => {
                let room = L::MAX - model.len();
                let k = match c.rng.below(4) {
                    0 => room + 1,
                    1 => room + 3,
                    2 => room,
                    _ => c.rng.range(1, 4),
                };
                log += &format!(" add*{k}");
                for _ in 0..k {
                    let m = elem(&mut c.rng);
                    let Some(r) = c.no_panic("list-add", &format!("{name}:{log}"), || l.push(&m.0)) else { return };
                    match r {
                        Ok(()) if model.len() < L::MAX => {
                            c.note("list:added");
                            model.push(m);
                        }
                        Err(e) if model.len() == L::MAX && e.get() == 0x95 => c.note("list:add-refused"),
                        r => {
                            c.fail("list-add", format!("{name}:{log} at {} gave {:?}", model.len(), r.map_err(|e| e.get())));
                            return;
                        }
                    }
                }
            }
            _ => {
                // Through its encoding and back.
                log += " recode";
                let mut want = (model.len() as u32).to_be_bytes().to_vec();
                model.iter().for_each(|m| want.extend_from_slice(&m.1));
                let mut u = UnmarshalBuf::new(&want);
                match c.no_panic("decode", &format!("{name}:{log}"), || L::try_unmarshal(&mut u)) {
                    Some(Ok(x)) => {
                        c.note("list:decoded");
                        if x != l {
                            c.fail("list-decoded", format!("{name}:{log} of {} differs", model.len()));
                        }
                        l = x;
                    }
                    Some(Err(e)) => {
                        c.fail("list-decoded", format!("{name}:{log}: {e:?}"));
                        return;
                    }
                    None => return,
                }
            }
        }
        // Observations.
        let Some((n, items)) = c.no_panic("list-read", &format!("{name}:{log}"), || (l.len(), l.items().to_vec())) else { return };
        if n != model.len() || items.len() != n || items.iter().zip(&model).any(|(a, b)| *a != b.0) {
            c.fail("list-contents", format!("{name}:{log}: count {n}, {} items, expected {}", items.len(), model.len()));
            return;
        }
        let mut want = (n as u32).to_be_bytes().to_vec();
        model.iter().for_each(|m| want.extend_from_slice(&m.1));
        match c.no_panic("encode", &format!("{name}:{log}"), || encode_big(&l)) {
            Some(Ok(e)) if e == want => c.note("list:encoded"),
            Some(r) => {
                c.fail("list-encoding", format!("{name}:{log}: {} instead of {}", r.map(|b| hex(&b)).unwrap_or_default(), hex(&want)));
                return;
            }
            None => return,
        }
        c.distinct(&[name.as_bytes(), &want].concat());
        // However it came about, it equals the list of the same elements.
        let es: Vec<L::E> = model.iter().map(|x| x.0.clone()).collect();
        if let Some(Ok(x)) = c.no_panic("list-new", name, || L::make(&es)) {
            if x != l {
                c.fail("list-equality", format!("{name}:{log} differs from new() of its {n} elements"));
            }
        }
        if n > 0 {
            if let Some(Ok(x)) = c.no_panic("list-new", name, || L::make(&es[..n - 1])) {
                if x == l {
                    c.fail("list-equality", format!("{name}:{log} equals a shorter list"));
                }
            }
        }
    }
    c.sample(|| format!("{name}:{log} -> {} elements", model.len()));
}

pub fn lists(ctx: &mut Ctx, n: u64) {
    let runs = list_runs();
    ctx.section("lists", n, |c| runs[c.index as usize % runs.len()](c));
    // Exactly at the capacity, one element at a time.
    ctx.section("capacity", runs.len() as u64, |c| {
        fn fill<L: List>(c: &mut Case) {
            let mut l = L::default();
            let mut n = 0;
            loop {
                let mut b = vec![];
                let e = L::E::arb(&mut c.rng, &mut b);
                c.eval();
                let Some(r) = c.no_panic("list-add", L::NAME, || l.push(&e)) else { return };
                if r.is_err() {
                    break;
                }
                n += 1;
                if l.len() != n || l.items().last() != Some(&e) || n > L::MAX {
                    c.fail("list-add", format!("{} element {n}", L::NAME));
                    return;
                }
            }
            if n != L::MAX {
                c.fail("list-capacity", format!("{} holds {n}, specified {}", L::NAME, L::MAX));
            }
            c.note("list:filled");
        }
        let fills: Vec<fn(&mut Case)> = vec![
            fill::<TpmlPcrSelection>, fill::<TpmlAlgProperty>, fill::<TpmlHandle>, fill::<TpmlCc>, fill::<TpmlTaggedTpmProperty>,
            fill::<TpmlTaggedPcrProperty>, fill::<TpmlEccCurve>, fill::<TpmlTaggedPolicy>, fill::<TpmlDigest>,
        ];
        fills[c.index as usize](c);
    });
}

/// Every sized buffer is large enough for the largest structure it carries.
pub fn capacities(ctx: &mut Ctx) {
    let m = b2_minimums();
    ctx.section("buffer-capacities", m.len() as u64, |c| {
        let (name, got, need) = m[c.index as usize];
        c.eval();
        c.note("buffer:capacity");
        if got < need {
            c.fail("buffer-capacity", format!("{name} holds {got}, the largest contents have {need}"));
        }
    });
}

// ---- structured sized buffers ---------------------------------------------------

pub struct StructOps {
    pub name: &'static str,
    pub run: fn(&mut Case, &'static str),
}
pub fn struct_case<B>(c: &mut Case, name: &'static str)
where
    B: Tpm2bStruct + Tpm2bSimple + AsRef<[u8]> + Marshalable + Debug + PartialEq + Clone,
    B::StructType: Wire,
{
    // A structure through the buffer and back.
    c.eval();
    let mut reference = vec![];
    let mut r = c.rng.clone();
    let Some(s) = c.no_panic("make-value", name, || <B::StructType as Wire>::arb(&mut r, &mut reference)) else { return };
    c.rng = r;
    let what = format!("{name} of {}", s.dbg());
    let Some(w) = c.no_panic("from_struct", &what, || B::from_struct(&s)) else { return };
    match w {
        Err(e) => c.fail("wrap-refused", format!("{e:?} for an encoding of {} bytes; {what}", reference.len())),
        Ok(w) => {
            c.note("wrapped");
            c.distinct(&[name.as_bytes(), &reference].concat());
            c.sample(|| format!("{what} carries {}", hex(&reference)));
            if w.get_size() as usize != reference.len() || w.get_buffer() != reference || w.as_ref() != reference {
                c.fail("wrapped-contents", format!("{} instead of {}; {what}", hex(w.get_buffer()), hex(&reference)));
            }
            match c.no_panic("to_struct", &what, || w.to_struct()) {
                Some(Ok(x)) if x == s => c.note("unwrapped"),
                Some(r) => c.fail("unwrapped", format!("{:?}; {what}", r.map(|x| x.dbg()))),
                None => {}
            }
            let mut want = (reference.len() as u16).to_be_bytes().to_vec();
            want.extend_from_slice(&reference);
            let mut e = vec![0x77u8; want.len() + 5];
            match c.no_panic("encode", &what, || w.try_marshal(&mut e)) {
                Some(Ok(k)) if k == want.len() && e[..k] == want => {}
                Some(r) => c.fail("wrapper-encoding", format!("{r:?} {}; {what}", hex(&e))),
                None => {}
            }
            let mut u = UnmarshalBuf::new(&want);
            match c.no_panic("decode", &what, || B::try_unmarshal(&mut u)) {
                Some(Ok(x)) => {
                    if x != w || !matches!(x.to_struct(), Ok(y) if y == s) {
                        c.fail("wrapper-decoding", what.clone());
                    }
                }
                Some(Err(x)) => c.fail("wrapper-decoding", format!("{x:?}; {what}")),
                None => {}
            }
        }
    }
    // Contents that are not, or not only, a structure.
    let shape = <B::StructType as Wire>::shape();
    for k in 0..4 {
        c.eval();
        let mut b = match k {
            0 => {
                let n = c.rng.below(reference.len() + 1);
                reference[..n].to_vec()
            }
            1 => malformed(&shape, &mut c.rng).map(|x| x.0).unwrap_or_default(),
            2 => {
                let mut b = reference.clone();
                if c.rng.chance(1, 2) {
                    // Everything after some point missing, and zero before it.
                    let n = b.len() - c.rng.below(b.len().min(12) + 1);
                    b.truncate(n);
                    let z = c.rng.below(b.len().min(6) + 1);
                    let n = b.len();
                    b[n - z..].fill(0);
                } else if !b.is_empty() {
                    let i = c.rng.below(b.len());
                    b[i] = c.rng.u8();
                }
                b
            }
            _ => {
                let n = c.rng.below(80);
                let mut b = c.rng.bytes(n);
                if c.rng.chance(1, 3) {
                    b.fill(0);
                }
                b
            }
        };
        b.truncate(B::MAX_BUFFER_SIZE);
        let what = format!("{name} with contents {}", hex(&b));
        // Built directly, or received.
        let w = if c.rng.chance(1, 2) {
            B::from_bytes(&b)
        } else {
            let mut e = (b.len() as u16).to_be_bytes().to_vec();
            e.extend_from_slice(&b);
            B::try_unmarshal(&mut UnmarshalBuf::new(&e))
        };
        let Ok(w) = w else {
            c.fail("wrap-refused", what);
            continue;
        };
        let Some(got) = c.no_panic("to_struct", &what, || w.to_struct()) else { continue };
        match (parse(&shape, &b), got) {
            (Err(_), Err(_)) => c.note("contents:rejected"),
            (Err(_), Ok(x)) => c.fail("incomplete-accepted", format!("as {}; {what}", x.dbg())),
            (Ok(n), Ok(x)) => {
                c.note(if n == b.len() { "contents:accepted" } else { "contents:accepted-with-rest" });
                match encode_big(&x) {
                    Ok(e) if e == b[..n] => {}
                    r => c.fail("unwrapped", format!("{}; {what}", r.map(|x| hex(&x)).unwrap_or_default())),
                }
            }
            // Trailing contents may or may not be refused.
            (Ok(n), Err(_)) if n < b.len() => c.note("contents:rest-rejected"),
            (Ok(_), Err(e)) => c.fail("complete-rejected", format!("{e:?}; {what}")),
        }
    }
}
macro_rules! structops {
    ($($t:ty),* $(,)?) => { vec![$(StructOps { name: stringify!($t), run: struct_case::<$t> }),*] };
}
pub fn library_structs() -> Vec<StructOps> {
    structops![Tpm2bPublic, Tpm2bCreationData, Tpm2bSensitiveCreate]
}
#[cfg(feature = "derived")]
pub fn user_structs() -> Vec<StructOps> {
    use crate::derived::*;
    structops![DBufPair, DBufInts, DBufTuple, DBufFar, DBufEnum, DBufDeep]
}
#[cfg(feature = "derived")]
pub fn user_buffers() -> Vec<BufOps> {
    use crate::derived::*;
    bufops![
        DBuf0, DBuf1, DBuf10, DBuf255, DBuf256, DBuf65535, DBuf70000, DBufPair, DBufInts, DBufTuple, DBufFar, DBufEnum, DBufDeep,
    ]
}
pub fn structured(ctx: &mut Ctx, ops: &[StructOps], sec: &str, n: u64) {
    ctx.section(&format!("{sec}structured"), n, |c| {
        let o = &ops[c.index as usize % ops.len()];
        (o.run)(c, o.name);
    });
}
