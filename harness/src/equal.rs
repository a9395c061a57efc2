//! C29: equality, hashing, copies and default values go with the encoding.
use crate::ctx::Case;
use crate::rng::Rng;
use crate::types::{self, TypeInfo, Wire};
use crate::*;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::marker::PhantomData;
use tpm2_client::sessions::{PasswordSession, Session};
use tpm2_client::{CmdHeader, RespHeader};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;

fn encoding<T: Marshalable>(v: &T) -> Option<Vec<u8>> {
    let mut d = vec![0xC3; 70_000];
    let n = v.try_marshal(&mut d).ok()?;
    d.truncate(n);
    Some(d)
}
fn decoding<T: Marshalable>(b: &[u8]) -> Option<T> {
    T::try_unmarshal(&mut UnmarshalBuf::new(b)).ok()
}
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Judges two values of a type; false if there was something wrong.
fn pair<T: Marshalable + Eq + Hash + std::fmt::Debug>(c: &mut Case, name: &str, how: &str, a: &T, b: &T) -> bool {
    let (Some(ea), Some(eb)) = (encoding(a), encoding(b)) else {
        return true;
    };
    c.eval();
    let same = ea == eb;
    let bad = |c: &mut Case, sig: &str| {
        c.fail(sig, format!("{name}, {how}: {} and {}", hex(&ea), hex(&eb)));
        false
    };
    #[allow(clippy::nonminimal_bool)]
    let (eq, ne, back) = (a == b, a != b, b == a);
    if eq != same {
        return bad(c, if same { "same-but-unequal" } else { "different-but-equal" });
    }
    if ne == eq || back != eq {
        return bad(c, "equality-inconsistent");
    }
    c.note(if same { "equal" } else { "unequal" });
    if same && hash(a) != hash(b) {
        return bad(c, "equal-hash-differently");
    }
    true
}

fn laws<T: Wire + Eq + Hash + Copy>(t: &TypeInfo, c: &mut Case) {
    let mut ab = vec![];
    let a = T::arb(&mut c.rng, &mut ab);
    c.distinct(&[t.name.as_bytes(), &ab].concat());
    // As it comes off the wire, alone and in front of something else.
    let tail = c.rng.bytes(9);
    for b in [&ab[..], &[&ab[..], &tail].concat()] {
        if let Some(b) = decoding::<T>(b) {
            c.note("decoded-and-built");
            pair(c, t.name, "built and decoded", &a, &b);
        }
    }
    #[allow(clippy::clone_on_copy)]
    let (copy, clone) = (a, a.clone());
    pair(c, t.name, "copied", &a, &copy);
    pair(c, t.name, "cloned", &a, &clone);
    // Neighbours.
    for _ in 0..3 {
        let mut bb = ab.clone();
        let how = match c.rng.below(6) {
            0 | 1 if !bb.is_empty() => {
                let i = c.rng.below(bb.len());
                bb[i] ^= 1 << c.rng.below(8);
                "one bit apart"
            }
            2 if !bb.is_empty() => {
                let i = bb.len() - 1 - c.rng.below(bb.len().min(4));
                bb[i] = bb[i].wrapping_add(1 + c.rng.below(255) as u8);
                "last bytes apart"
            }
            3 if bb.len() > 1 => {
                let i = c.rng.below(bb.len() - 1);
                bb.swap(i, i + 1);
                "bytes swapped"
            }
            4 => {
                bb.clear();
                T::arb(&mut c.rng, &mut bb);
                "generated"
            }
            _ => {
                bb = checks::input(t, &mut c.rng).0;
                "another input"
            }
        };
        if let Some(b) = decoding::<T>(&bb) {
            pair(c, t.name, how, &a, &b);
        }
    }
}

// Default values, where a type has one.
struct Of<T>(PhantomData<T>);
trait Without<T> {
    fn default_value(&self) -> Option<T>;
}
impl<T: Default> Of<T> {
    fn default_value(&self) -> Option<T> {
        Some(T::default())
    }
}
impl<T> Without<T> for Of<T> {
    fn default_value(&self) -> Option<T> {
        None
    }
}
fn empty<T: Wire + Eq + Hash>(c: &mut Case, name: &str, d: Option<T>) {
    let Some(d) = d else { return };
    let Some(e) = encoding(&d) else {
        return c.fail("default-not-encodable", name);
    };
    c.eval();
    c.note("default");
    // A digest with its algorithm cannot be all zero: it is of the first algorithm.
    let want: Vec<u8> = match name {
        "TpmtHa" => [vec![0, 4], vec![0; 20]].concat(),
        "TpmsTaggedPolicy" => [vec![0, 0, 0, 0, 0, 4], vec![0; 20]].concat(),
        _ => vec![0; e.len()],
    };
    if e != want {
        return c.fail("default", format!("{name}: {}", hex(&e)));
    }
    if let Some(b) = decoding::<T>(&e) {
        pair(c, name, "default and decoded", &d, &b);
    }
}

type Law = (&'static str, fn(&TypeInfo, &mut Case), fn(&mut Case));
macro_rules! table {
    ($($t:ty),* $(,)?) => {
        &[$((stringify!($t), laws::<$t>, |c| {
            #[allow(unused_imports)]
            use Without as _;
            empty::<$t>(c, stringify!($t), Of::<$t>(PhantomData).default_value())
        })),*]
    };
}
const LAWS: &[Law] = table![
    u8, u16, u32, u64, i8, i16, i32, i64, (), [u8; 0], [u8; 1], [u8; 7], TpmsEmpty,
    TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic,
    TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme,
    TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmCc, TpmSt, TpmSu, TpmCap,
    TpmPt, TpmPtPcr, TpmHandle, TpmGenerated, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits, TpmiRsaKeyBits,
    TpmiEccCurve, TpmHc, TpmiRhNvIndex, TpmiShAuthSession,
    Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
    Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
    Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
    Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData,
    TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo, TpmsSessionAuditInfo,
    TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive, TpmsSensitiveCreate, TpmsEccPoint, TpmsSchemeXor,
    TpmsSchemeHash, TpmsSchemeEcdaa, TpmsKeyedHashParms, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc,
    TpmsRsaParms, TpmsEccParms, TpmsAsymParms, TpmsAlgProperty, TpmsTaggedProperty, TpmsAuthCommand, TpmsAuthResponse,
    TpmsIdObject, TpmsNvPublic, TpmsContextData, TpmsCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd,
    GetRandomResp, StartupCmd, RespHeader, CmdHeader, TpmsTaggedPcrSelect, TpmsTaggedPolicy, TpmlCca, PcrReadCmd,
    PcrReadResp, TpmsPcrSelection, TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty,
    TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest, TpmsAttest, TpmtPublic, TpmtSensitive,
    TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme,
    TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData,
];

/// The same contents by every way to make a buffer.
fn buffer<T: Tpm2bSimple + Marshalable + Eq + Hash + Copy + std::fmt::Debug>(c: &mut Case, name: &str) {
    let n = c.rng.below(T::MAX_BUFFER_SIZE + 1);
    let bytes = c.rng.bytes(n);
    let Ok(a) = T::from_bytes(&bytes) else { return };
    // Cut from something longer.
    let tail = c.rng.bytes(40);
    let longer = [&bytes[..], &tail].concat();
    let Ok(b) = T::from_bytes(&longer[..n]) else { return };
    let wire = [&(n as u16).to_be_bytes()[..], &longer].concat();
    c.note("buffer");
    pair(c, name, "from bytes twice", &a, &b);
    if let Some(d) = decoding::<T>(&wire) {
        pair(c, name, "from bytes and decoded", &a, &d);
    }
    // Shorter, longer, and with a zero behind.
    for m in [n.saturating_sub(1), n + 1] {
        let mut o = bytes.clone();
        o.resize(m, 0);
        if let Ok(o) = T::from_bytes(&o) {
            pair(c, name, "of another length", &a, &o);
        }
    }
}
fn wrapped<B: Tpm2bSimple + Tpm2bStruct<StructType: Wire> + Marshalable + Eq + Hash + Copy + std::fmt::Debug>(c: &mut Case, name: &str) {
    let mut e = vec![];
    let v = B::StructType::arb(&mut c.rng, &mut e);
    let Ok(a) = B::from_struct(&v) else { return };
    c.note("wrapped");
    if let Ok(b) = B::from_bytes(&e) {
        pair(c, name, "wrapped and from bytes", &a, &b);
    }
    if let Ok(Ok(b)) = a.to_struct().map(|x| B::from_struct(&x)) {
        pair(c, name, "wrapped again", &a, &b);
    }
}
macro_rules! lists {
    ($c:ident: $($t:ident . $f:ident [$e:ty]),* $(,)?) => {
        [$(|$c: &mut Case| {
            let mut e = vec![];
            let a = $t::arb(&mut $c.rng, &mut e);
            let elements: Vec<$e> = a.$f().to_vec();
            $c.note("list");
            let mut l = $t::default();
            for x in &elements {
                let _ = l.add(x);
            }
            pair($c, stringify!($t), "decoded and added up", &a, &l);
            if let Ok(b) = $t::new(&elements) {
                pair($c, stringify!($t), "decoded and new", &a, &b);
                // Refused elements leave no trace.
                let mut full = l;
                for x in elements.iter().cycle().take(600) {
                    let _ = full.add(x);
                }
                let mut again = full;
                if elements.len() > 0 && again.add(&elements[0]).is_err() {
                    pair($c, stringify!($t), "after a refusal", &full, &again);
                }
                pair($c, stringify!($t), "some and full", &b, &full);
            }
        }),*] as [fn(&mut Case); 9]
    };
}

fn sessions(c: &mut Case) {
    let n = c.rng.below(66);
    let a = c.rng.bytes(n);
    let mut b = a.clone();
    match c.rng.below(4) {
        0 if n > 0 => {
            let i = c.rng.below(n);
            b[i] ^= 1 << c.rng.below(8)
        }
        1 => b.push(0),
        2 => drop(b.pop()),
        _ => {}
    }
    let (Ok(x), Ok(y)) = (PasswordSession::new(&a), PasswordSession::new(&b)) else { return };
    c.eval();
    c.note("sessions");
    if (x == y) != (a == b) || (x != y) == (a == b) {
        c.fail("sessions", format!("passwords {} and {}", hex(&a), hex(&b)));
    }
    if a.is_empty() && x != PasswordSession::default() {
        c.fail("default-session", "the empty password is not the default");
    }
    let (p, q) = (x.get_auth_command(), y.get_auth_command());
    pair(c, "authorization", "of passwords", &p, &q);
}
fn numbers(c: &mut Case) {
    use tpm2_rs_base::errors::{TssError, TssTcsError};
    let mut v = |r: &mut Rng| (r.u32() >> r.below(31)).max(1);
    let a = v(&mut c.rng);
    let b = if c.rng.chance(1, 2) { a } else if c.rng.chance(1, 2) { (a ^ 1 << c.rng.below(32)).max(1) } else { v(&mut c.rng) };
    let (Ok(x), Ok(y)) = (TssError::try_from(a), TssError::try_from(b)) else { return };
    c.eval();
    c.note("codes");
    if (x == y) != (a == b) || (x != y) == (a == b) || (a == b && hash(&x) != hash(&y)) {
        c.fail("codes", format!("{a:#x} and {b:#x}"));
    }
    let k = [TssTcsError::GeneralFailure, TssTcsError::BadParameter, TssTcsError::InternalError, TssTcsError::OutOfMemory, TssTcsError::NotImplemented,
        TssTcsError::KeyAlredyRegistered, TssTcsError::TpmUnexpected, TssTcsError::CommFailure, TssTcsError::Timeout, TssTcsError::Unsupported, TssTcsError::Canceled];
    let (i, j) = (c.rng.below(k.len()), c.rng.below(k.len()));
    if (k[i] == k[j]) != (i == j) {
        c.fail("codes", format!("{:?} and {:?}", k[i], k[j]));
    }
    let (p, q) = (tpm2::Alg(a as u16), tpm2::Alg(b as u16));
    if (p == q) != (a as u16 == b as u16) {
        c.fail("codes", format!("algorithms {:#x} and {:#x}", a as u16, b as u16));
    }
    // Digests of the core crate.
    use tpm2::TpmtHa as H;
    let d = [[1u8; 64], [1; 64], { let mut d = [1; 64]; d[c.rng.below(32)] = 2; d }];
    fn all(d: &[u8; 64]) -> [H<'_>; 4] {
        [H::Sha1(d[..20].try_into().unwrap()), H::Sha256(d[..32].try_into().unwrap()), H::Sha384(d[..48].try_into().unwrap()), H::Sha512(d)]
    }
    for (m, x) in all(&d[0]).iter().enumerate() {
        for (z, w) in [(1, &d[1]), (2, &d[2])] {
            for (n, y) in all(w).iter().enumerate() {
                let same = m == n && (z == 1 || d[2][..[20, 32, 48, 64][m]] == d[0][..[20, 32, 48, 64][m]]);
                if (x == y) != same {
                    c.fail("core-digests", format!("{x:?} and {y:?}"));
                }
            }
        }
    }
}

pub fn all(ctx: &mut Ctx) {
    let types = types::all();
    // Nothing is left out unnoticed.
    let have: HashSet<_> = LAWS.iter().map(|l| l.0).collect();
    let missing: Vec<_> = types.iter().map(|t| t.name).filter(|n| !have.contains(n) && *n != "[u8; 64]").collect();
    assert!(missing.is_empty(), "harness: no laws for {missing:?}");
    let n = ctx.n(4, 3_000, 100_000);
    let k = LAWS.len() as u64;
    ctx.section("pairs", k * n, |c| {
        let (name, law, _) = LAWS[(c.index % k) as usize];
        let Some(t) = types.iter().find(|t| t.name == name) else { return };
        law(t, c)
    });
    ctx.section("defaults", k, |c| (LAWS[c.index as usize].2)(c));
    let n = ctx.n(1, 20_000, 400_000);
    ctx.section("ways", n * 31, |c| {
        macro_rules! b {
            ($($t:ident),*) => { [$(|c: &mut Case| buffer::<$t>(c, stringify!($t))),*] as [fn(&mut Case); 16] };
        }
        let buffers = b![Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey, Tpm2bLabel,
            Tpm2bSensitiveData, Tpm2bPublicKeyRsa, Tpm2bEccParameter, Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bPrivate, Tpm2bCreationData];
        let lists = lists! { c:
            TpmlPcrSelection.pcr_selections[TpmsPcrSelection], TpmlAlgProperty.alg_properties[TpmsAlgProperty], TpmlHandle.handle[TpmHandle],
            TpmlCc.command_codes[TpmCc], TpmlTaggedTpmProperty.tpm_property[TpmsTaggedProperty],
            TpmlTaggedPcrProperty.pcr_property[TpmsTaggedPcrSelect], TpmlEccCurve.ecc_curves[TpmEccCurve],
            TpmlTaggedPolicy.policies[TpmsTaggedPolicy], TpmlDigest.digests[Tpm2bDigest],
        };
        match (c.index % 31) as usize {
            k @ 0..16 => buffers[k](c),
            k @ 16..25 => lists[k - 16](c),
            25 => wrapped::<Tpm2bPublic>(c, "Tpm2bPublic"),
            26 => wrapped::<Tpm2bCreationData>(c, "Tpm2bCreationData"),
            27 => wrapped::<Tpm2bSensitiveCreate>(c, "Tpm2bSensitiveCreate"),
            28 | 29 => sessions(c),
            _ => numbers(c),
        }
    });
    for k in ["equal", "unequal", "decoded-and-built", "buffer", "list", "wrapped", "sessions", "codes"] {
        ctx.require(k, 1000);
    }
    ctx.require("default", 50);
}
