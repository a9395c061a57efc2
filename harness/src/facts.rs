//! C19 and C21: handle ranges, attribute fields and constants.
use crate::checks::encode_big;
use crate::ctx::*;
use std::collections::BTreeMap;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;

// ---- C19 ------------------------------------------------------------------------

fn nv(v: u32) -> bool {
    v >> 24 == 1
}
fn hmac(v: u32) -> bool {
    (0x0200_0000..=0x0200_003F).contains(&v)
}
fn policy(v: u32) -> bool {
    (0x0300_0000..=0x0300_003F).contains(&v)
}

fn one_handle(c: &mut Case, v: u32) {
    let got = call(|| {
        (
            TpmiRhNvIndex::try_from(v),
            TpmiShAuthSession::try_from(v),
            TpmHc::is_nv_index(v),
            TpmHc::is_hmac_session(v),
            TpmHc::is_policy_session(v),
        )
    });
    let (n, s, a, b, p) = match got {
        Ok(x) => x,
        Err(m) => {
            c.fail("panic:handle", format!("{v:#x}: {m}"));
            return;
        }
    };
    let is_s = hmac(v) || policy(v) || v == 0x4000_0009;
    if n.is_ok() != nv(v) || a != nv(v) {
        c.fail("nv-index-range", format!("{v:#010x}: try_from {}, is_nv_index {a}", n.is_ok()));
    }
    if s.is_ok() != is_s {
        c.fail("auth-session-range", format!("{v:#010x}: try_from {}", s.is_ok()));
    }
    if b != hmac(v) || p != policy(v) {
        c.fail("session-range", format!("{v:#010x}: is_hmac_session {b}, is_policy_session {p}"));
    }
    if let Err(e) = &n {
        if e.get() != 0x84 {
            c.fail("handle-error", format!("{v:#010x}: {:#x}", e.get()));
        }
    }
    if let Err(e) = &s {
        if e.get() != 0x84 {
            c.fail("handle-error", format!("{v:#010x}: {:#x}", e.get()));
        }
    }
    // Accepted values encode to themselves and come back.
    let mut d = [0u8; 4];
    if let Ok(x) = n {
        {
            let r = call(|| (x.try_marshal(&mut d), TpmiRhNvIndex::try_unmarshal(&mut UnmarshalBuf::new(&v.to_be_bytes()))));
            if !matches!(r, Ok((Ok(4), Ok(y))) if y == x) || d != v.to_be_bytes() {
                c.fail("handle-encoding", format!("nv index {v:#010x} encodes to {}", hex(&d)));
            }
        }
    }
    if let Ok(x) = s {
        let r = call(|| (x.try_marshal(&mut d), TpmiShAuthSession::try_unmarshal(&mut UnmarshalBuf::new(&v.to_be_bytes()))));
        if !matches!(r, Ok((Ok(4), Ok(y))) if y == x) || d != v.to_be_bytes() {
            c.fail("handle-encoding", format!("session {v:#010x} encodes to {}", hex(&d)));
        }
        if (x == TpmiShAuthSession::RS_PW) != (v == 0x4000_0009) {
            c.fail("password-handle", format!("{v:#010x}"));
        }
    }
}

const NV_BITS: [(&str, TpmaNv, u32); 21] = [
    ("PPWRITE", TpmaNv::PPWRITE, 0),
    ("OWNERWRITE", TpmaNv::OWNERWRITE, 1),
    ("AUTHWRITE", TpmaNv::AUTHWRITE, 2),
    ("POLICYWRITE", TpmaNv::POLICYWRITE, 3),
    ("POLICY_DELETE", TpmaNv::POLICY_DELETE, 10),
    ("WRITELOCKED", TpmaNv::WRITELOCKED, 11),
    ("WRITEALL", TpmaNv::WRITEALL, 12),
    ("WRITEDEFINE", TpmaNv::WRITEDEFINE, 13),
    ("WRITE_STCLEAR", TpmaNv::WRITE_STCLEAR, 14),
    ("GLOBALLOCK", TpmaNv::GLOBALLOCK, 15),
    ("PPREAD", TpmaNv::PPREAD, 16),
    ("OWNERREAD", TpmaNv::OWNERREAD, 17),
    ("AUTHREAD", TpmaNv::AUTHREAD, 18),
    ("POLICYREAD", TpmaNv::POLICYREAD, 19),
    ("NO_DA", TpmaNv::NO_DA, 25),
    ("ORDERLY", TpmaNv::ORDERLY, 26),
    ("CLEAR_STCLEAR", TpmaNv::CLEAR_STCLEAR, 27),
    ("READLOCKED", TpmaNv::READLOCKED, 28),
    ("WRITTEN", TpmaNv::WRITTEN, 29),
    ("PLATFORMCREATE", TpmaNv::PLATFORMCREATE, 30),
    ("READ_STCLEAR", TpmaNv::READ_STCLEAR, 31),
];

pub fn handles(ctx: &mut Ctx) {
    // All 2^32 values in one section of 4096 blocks (a sample in the tiny tier).
    let tiny = ctx.tier == Tier::Tiny;
    let blocks = ctx.n(4, 4096, 4096);
    ctx.section("all-handles", blocks, |c| {
        // The classification of every value; anything odd, and a sample of the
        // accepted values, is looked at one by one.
        let base = (c.index as u32) << 20;
        let mut seen = 0u64;
        for block in 0..16u32 {
            let lo = base | block << 16;
            let (mut nvs, mut ss) = (0u64, 0u64);
            let mut look: Vec<u32> = vec![];
            let r = call(|| {
                for v in lo..=lo | if tiny { 15 } else { 0xFFFF } {
                    seen += 1;
                    let n = TpmiRhNvIndex::try_from(v);
                    let s = TpmiShAuthSession::try_from(v);
                    let is_s = hmac(v) || policy(v) || v == 0x4000_0009;
                    let good = n.is_ok() == nv(v)
                        && s.is_ok() == is_s
                        && TpmHc::is_nv_index(v) == nv(v)
                        && TpmHc::is_hmac_session(v) == hmac(v)
                        && TpmHc::is_policy_session(v) == policy(v)
                        && n.as_ref().err().is_none_or(|e| e.get() == 0x84)
                        && s.as_ref().err().is_none_or(|e| e.get() == 0x84);
                    nvs += n.is_ok() as u64;
                    ss += s.is_ok() as u64;
                    if (!good || s.is_ok() || (n.is_ok() && v & 0x3FF == 0)) && look.len() < 200 {
                        look.push(v);
                    }
                }
            });
            c.note_n("accepted:nv-index", nvs);
            c.note_n("accepted:session", ss);
            if r.is_err() {
                look.extend(lo..=lo | 0xFFFF);
            }
            for v in look {
                one_handle(c, v);
            }
        }
        c.note_n("handles", seen);
        c.evals(seen);
        c.distinct_n(seen);
    });
    ctx.exhaustive = !tiny;
    let n = ctx.n(50, 200_000, 5_000_000);
    ctx.section("nv-attributes", n, |c| {
        c.eval();
        let start = c.rng.edgy_u64(32) as u32;
        let mut a = TpmaNv(start);
        for _ in 0..c.rng.range(1, 6) {
            // Four bits have room in the field; a wider number must stay inside all the same.
            if c.rng.chance(1, 4) {
                let t = c.rng.u8();
                let before = a.0;
                if c.no_panic("set_type", &format!("{before:#x} to {t}"), || a.set_type(TpmNt(t))).is_none() {
                    return;
                }
                c.note("wide-type");
                if (a.0 ^ before) & !0xF0 != 0 || TpmaNv::from(TpmNt(t)).0 & !0xF0 != 0 {
                    c.fail("nv-type-spills", format!("{before:#010x} with type {t} became {:#010x}", a.0));
                    return;
                }
            }
            let t = (c.rng.u8() & 15) as u32;
            let before = a.0;
            if c.no_panic("set_type", &format!("{before:#x} to {t}"), || a.set_type(TpmNt(t as u8))).is_none() {
                return;
            }
            c.note("type-set");
            if a.0 != (before & !0xF0) | (t << 4) {
                c.fail("nv-type", format!("{before:#010x} with type {t} became {:#010x}", a.0));
                return;
            }
            if a.get_index_type().0 as u32 != t {
                c.fail("nv-type", format!("{:#010x} reports type {}", a.0, a.get_index_type().0));
                return;
            }
            if TpmaNv::from(TpmNt(t as u8)).0 != t << 4 {
                c.fail("nv-type", format!("type {t} alone is {:#010x}", TpmaNv::from(TpmNt(t as u8)).0));
                return;
            }
            // Flags around it leave the type alone.
            let (name, f, bit) = *c.rng.pick(&NV_BITS);
            if f.0 != 1 << bit {
                c.fail("nv-bit", format!("{name} is {:#x}", f.0));
                return;
            }
            let on = c.rng.chance(1, 2);
            let before = a.0;
            let r = call(|| {
                a.set(f, on);
                (a.contains(f), a.get_index_type().0 as u32)
            });
            let want = if on { before | 1 << bit } else { before & !(1 << bit) };
            match r {
                Ok((has, ty)) if has == on && ty == t && a.0 == want => c.note("flag-set"),
                r => {
                    c.fail("nv-bit", format!("{name} {on} on {before:#010x} gives {:#010x} {r:?}", a.0));
                    return;
                }
            }
            let e = encode_big(&a);
            if e != Ok(a.0.to_be_bytes().to_vec()) || TpmaNv::try_unmarshal(&mut UnmarshalBuf::new(&a.0.to_be_bytes())) != Ok(a) {
                c.fail("nv-encoding", format!("{:#010x}: {e:x?}", a.0));
            }
            c.distinct(&a.0.to_be_bytes());
        }
    });
}

// ---- C21 ------------------------------------------------------------------------

pub fn constants(ctx: &mut Ctx) {
    let groups = crate::consts::groups();
    ctx.section("values", groups.len() as u64, |c| {
        let (name, _, list) = groups[c.index as usize];
        let mut by: BTreeMap<u64, &str> = BTreeMap::new();
        for &(k, got, want) in list {
            c.eval();
            c.note("constants");
            c.distinct(format!("{name}::{k}").as_bytes());
            if got != want {
                c.fail("constant", format!("{name}::{k} is {got:#x}, specified {want:#x}"));
            }
            if name != "limits" {
                if let Some(o) = by.insert(got, k) {
                    c.fail("constant-collision", format!("{name}::{k} and {name}::{o} are both {got:#x}"));
                }
            }
        }
        c.sample(|| format!("{name}: {} constants, {:?}...", list.len(), &list[..list.len().min(3)]));
    });
    // Names that two types publish.
    ctx.section("agreement", 1, |c| {
        let get = |g: &str| groups.iter().find(|x| x.0 == g).unwrap().2;
        let norm = |s: &str| s.replace('_', "").to_lowercase();
        let ids = get("TpmAlgId");
        for (g, _, list) in groups.iter().filter(|g| g.0.starts_with("TpmiAlg") || g.0 == "tpm2::Alg") {
            for (k, v, _) in list.iter() {
                if let Some(x) = ids.iter().find(|x| norm(x.0) == norm(k)) {
                    c.eval();
                    c.note("agreeing");
                    if x.1 != *v {
                        c.fail("constant-disagreement", format!("{g}::{k} is {v:#x}, TpmAlgId::{} is {:#x}", x.0, x.1));
                    }
                } else {
                    c.fail("constant-disagreement", format!("{g}::{k} is no TpmAlgId"));
                }
            }
        }
        let rc = get("TpmRc");
        use tpm2_rs_base::errors::TpmRcError as E;
        for (k, e) in [
            ("CAsymmetric", E::Asymmetric), ("Value", E::Value), ("Size", E::Size), ("Selector", E::Selector),
            ("Initialize", E::Initialize), ("Failure", E::Failure), ("Sequence", E::Sequence), ("CommandSize", E::CommandSize),
            ("CommandCode", E::CommandCode), ("ContextGap", E::ContextGap), ("ObjectMemory", E::ObjectMemory),
            ("SessionMemory", E::SessionMemory), ("Memory", E::Memory),
        ] {
            c.eval();
            c.note("agreeing");
            let x = rc.iter().find(|x| x.0 == k).unwrap();
            if x.1 != e.get() as u64 {
                c.fail("constant-disagreement", format!("TpmRc::{k} is {:#x}, TpmRcError has {:#x}", x.1, e.get()));
            }
        }
        if E::BadTag.get() != 0x1E {
            c.fail("constant", format!("BadTag is {:#x}", E::BadTag.get()));
        }
        for (what, got, want) in [
            ("HmacSessionFirst", TpmHc::HmacSessionFirst.get(), 0x0200_0000),
            ("HmacSessionLast", TpmHc::HmacSessionLast.get(), 0x0200_003F),
            ("PolicySessionFirst", TpmHc::PolicySessionFirst.get(), 0x0300_0000),
            ("PolicySessionLast", TpmHc::PolicySessionLast.get(), 0x0300_003F),
            ("PersistentFirst", TpmHc::PersistentFirst.get(), 0x8100_0000),
            ("PersistentLast", TpmHc::PersistentLast.get(), 0x81FF_FFFF),
            ("NVIndexFirst", TpmHc::NVIndexFirst.get(), 0x0100_0000),
            ("NVIndexLast", TpmHc::NVIndexLast.get(), 0x01FF_FFFF),
            ("RC_VER_1", TpmRc::RC_VER_1, 0x100),
            ("RC_FMT_1", TpmRc::RC_FMT_1, 0x80),
            ("RC_WARN", TpmRc::RC_WARN, 0x900),
            ("RC_P", TpmRc::RC_P, 0x40),
            ("RC_S", TpmRc::RC_S, 0x800),
            ("GetCapabilityCmd", GetCapabilityCmd::CMD_CODE.0, 0x17A),
            ("GetRandomCmd", GetRandomCmd::CMD_CODE.0, 0x17B),
            ("PcrReadCmd", PcrReadCmd::CMD_CODE.0, 0x17E),
            ("StartupCmd", StartupCmd::CMD_CODE.0, 0x144),
            ("client command buffer", tpm2_client::CMD_BUFFER_SIZE as u32, 4096),
            ("client response buffer", tpm2_client::RESP_BUFFER_SIZE as u32, 4096),
        ] {
            c.eval();
            c.note("constants");
            if got != want {
                c.fail("constant", format!("{what} is {got:#x}, specified {want:#x}"));
            }
        }
        for (h, n) in [
            (tpm2::TpmiAlgHash::Sha1, 20), (tpm2::TpmiAlgHash::Sha256, 32), (tpm2::TpmiAlgHash::Sha384, 48),
            (tpm2::TpmiAlgHash::Sha512, 64), (tpm2::TpmiAlgHash::Sm3_256, 32), (tpm2::TpmiAlgHash::Sha3_256, 32),
            (tpm2::TpmiAlgHash::Sha3_384, 48), (tpm2::TpmiAlgHash::Sha3_512, 64),
        ] {
            c.eval();
            c.note("constants");
            if h.digest_size() != n {
                c.fail("constant", format!("{h:?} has digest size {}", h.digest_size()));
            }
        }
    });
    // Every constant of a codec type encodes with its width, and comes back.
    macro_rules! widths {
        ($($t:ident($i:ty)),* $(,)?) => { vec![$((stringify!($t), (|v: u64| {
            let x = $t(v as $i);
            let e = encode_big(&x);
            let back = e.as_ref().ok().map(|b| <$t>::try_unmarshal(&mut UnmarshalBuf::new(b)) == Ok(x));
            (e.ok(), back)
        }) as fn(u64) -> (Option<Vec<u8>>, Option<bool>))),*] as Vec<(&str, fn(u64) -> (Option<Vec<u8>>, Option<bool>))> };
    }
    let w = widths![
        TpmAlgId(u16), TpmEccCurve(u16), TpmCc(u32), TpmSt(u16), TpmSu(u16), TpmCap(u32), TpmPt(u32), TpmPtPcr(u32),
        TpmHandle(u32), TpmGenerated(u32), TpmiAlgHash(u16), TpmiAlgKdf(u16), TpmiAlgPublic(u16), TpmiAlgSymMode(u16),
        TpmiAlgSymObject(u16), TpmiAlgKeyedhashScheme(u16), TpmiAlgRsaScheme(u16), TpmiAlgSigScheme(u16), TpmiAlgEccScheme(u16),
        TpmiAlgAsymScheme(u16), TpmiYesNo(u8), TpmiStAttest(u16), TpmiStCommandTag(u16), TpmaLocality(u8), TpmaNv(u32),
        TpmaObject(u32), TpmaAlgorithm(u32), TpmaSession(u8), TpmaCc(u32),
    ];
    ctx.section("widths", w.len() as u64, |c| {
        let (name, f) = w[c.index as usize];
        let (_, width, list) = groups.iter().find(|g| g.0 == name).unwrap();
        for (k, v, _) in list.iter() {
            c.eval();
            let Some((e, back)) = c.no_panic("encode", name, || f(*v)) else { return };
            c.note("encoded");
            if e.as_deref() != Some(&v.to_be_bytes()[8 - *width as usize..]) || back != Some(true) {
                c.fail("constant-encoding", format!("{name}::{k} = {v:#x} encodes to {e:x?}"));
            }
        }
    });
    // The union variants are selected by the constants they are named after.
    ctx.section("selectors", 1, |c| {
        use safe_discriminant::Discriminant;
        let h = TpmsSchemeHash { hash_alg: TpmiAlgHash::SHA256 };
        for (what, got, want) in [
            ("TpmtHa::Sha256", TpmtHa::Sha256([0; 32]).discriminant(), TpmAlgId::SHA256.0),
            ("TpmtHa::Sha1", TpmtHa::Sha1([0; 20]).discriminant(), TpmAlgId::SHA1.0),
            ("TpmtKdfScheme::Mgf1", TpmtKdfScheme::Mgf1(h).discriminant(), TpmAlgId::MGF1.0),
            ("TpmtKdfScheme::Null", TpmtKdfScheme::Null(TpmsEmpty).discriminant(), TpmAlgId::Null.0),
            ("TpmtSigScheme::Rsassa", TpmtSigScheme::Rsassa(h).discriminant(), TpmAlgId::RSASSA.0),
        ] {
            c.eval();
            c.note("agreeing");
            if got != want {
                c.fail("constant-disagreement", format!("{what} selects {got:#x}, the constant is {want:#x}"));
            }
        }
    });
}
