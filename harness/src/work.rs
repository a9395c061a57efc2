//! C28: operations of the crates driven by a byte string, written with `core`
//! alone, so that the same steps run in a program without standard library and
//! allocator, and under the monitors of the hosted harness. A step returns a
//! digest of what it saw.
use core::fmt::{Debug, Write};
use safe_discriminant::Discriminant;
use tpm2::errors::{ErrorPosition, ErrorType, TpmRcError, TssError};
use tpm2_client::connection::Connection;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource, drbg_helpers};
use tpm2_impl::platform::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TssError as BaseTss;
use tpm2_rs_base::marshal::{Error, Marshalable, MarshalableVariant, UnmarshalBuf};
use tpm2_rs_base::*;

pub struct Seen(pub u64);
impl Seen {
    pub fn n(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(9) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (x >> 29);
    }
    fn ok<E>(&mut self, r: &Result<usize, E>) {
        self.n(r.as_ref().map_or(u64::MAX, |n| *n as u64))
    }
    fn bytes(&mut self, b: &[u8]) {
        self.n(b.len() as u64);
        b.iter().for_each(|x| self.n(*x as u64));
    }
}
/// Formatting without a destination.
impl Write for Seen {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.n(s.len() as u64);
        Ok(())
    }
}

pub type Step = fn(&[u8], &mut [u8], &mut Seen);

fn encoded(v: &impl Marshalable, dst: &mut [u8], s: &mut Seen) {
    let r = v.try_marshal(dst);
    s.ok(&r);
    if let Ok(n) = r {
        s.bytes(&dst[..n]);
        s.ok(&v.try_marshal(&mut dst[..n / 2]));
        s.ok(&v.try_marshal(&mut dst[..n.saturating_sub(1)]));
    }
}
fn codec<T: Marshalable + Debug + PartialEq>(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    let mut u = UnmarshalBuf::new(b);
    match T::try_unmarshal(&mut u) {
        Ok(v) => {
            s.n(u.len() as u64);
            encoded(&v, dst, s);
            s.n((core::hint::black_box(&v) == &v) as u64);
            let _ = write!(s, "{v:?}");
        }
        Err(e) => drop(write!(s, "{e:?}")),
    }
}
fn variant<T: MarshalableVariant + Discriminant>(b: &[u8], dst: &mut [u8], s: &mut Seen)
where
    <T as Discriminant>::Repr: TryFrom<u64> + Into<u64>,
{
    let Some((sel, body)) = b.split_first_chunk::<8>() else { return };
    let Ok(sel) = <T as Discriminant>::Repr::try_from(u64::from_be_bytes(*sel)) else { return };
    let mut u = UnmarshalBuf::new(body);
    match T::try_unmarshal_variant(sel, &mut u) {
        Ok(v) => {
            s.n(u.len() as u64);
            s.n(v.discriminant().into());
            let r = v.try_marshal_variant(dst);
            s.ok(&r);
        }
        Err(e) => drop(write!(s, "{e:?}")),
    }
}
fn buffer<T: Tpm2bSimple + AsRef<[u8]> + Marshalable>(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    match T::from_bytes(b) {
        Ok(v) => {
            s.bytes(v.as_ref());
            s.n(v.get_size() as u64 ^ (v.get_buffer().len() as u64) << 20);
            encoded(&v, dst, s);
        }
        Err(e) => drop(write!(s, "{e:?}")),
    }
}
fn structured<B: Tpm2bSimple + Tpm2bStruct<StructType: Marshalable>>(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    if let Ok(v) = B::StructType::try_unmarshal(&mut UnmarshalBuf::new(b)) {
        match B::from_struct(&v) {
            Ok(w) => {
                s.bytes(w.get_buffer());
                s.n(w.to_struct().is_ok() as u64);
            }
            Err(e) => drop(write!(s, "{e:?}")),
        }
    }
    if let Ok(w) = B::from_bytes(b) {
        match w.to_struct() {
            Ok(v) => encoded(&v, dst, s),
            Err(e) => drop(write!(s, "{e:?}")),
        }
    }
}
macro_rules! lists {
    ($($t:ident . $f:ident [$e:ty]),* $(,)?) => {$(
        #[allow(non_snake_case)]
        fn $t(b: &[u8], dst: &mut [u8], s: &mut Seen) {
            let mut u = UnmarshalBuf::new(b);
            let mut l = $t::default();
            // More elements than fit, the last one again and again.
            let mut last = None;
            for _ in 0..520 {
                if let Ok(e) = <$e>::try_unmarshal(&mut u) {
                    last = Some(e);
                }
                let Some(e) = &last else { return };
                s.n(l.add(e).map_or_else(|e| e.get() as u64, |_| 0));
            }
            s.n(l.count() as u64);
            let again = $t::new(l.$f());
            s.n(again.is_ok_and(|x| x == l) as u64);
            encoded(&l, dst, s);
        }
    )*};
}
lists! {
    TpmlPcrSelection.pcr_selections[TpmsPcrSelection], TpmlAlgProperty.alg_properties[TpmsAlgProperty], TpmlHandle.handle[TpmHandle],
    TpmlCc.command_codes[TpmCc], TpmlTaggedTpmProperty.tpm_property[TpmsTaggedProperty],
    TpmlTaggedPcrProperty.pcr_property[TpmsTaggedPcrSelect], TpmlEccCurve.ecc_curves[TpmEccCurve],
    TpmlTaggedPolicy.policies[TpmsTaggedPolicy], TpmlDigest.digests[Tpm2bDigest],
}

// ---- client ------------------------------------------------------------------------------

struct Peer<'a> {
    reply: &'a [u8],
    fail: bool,
    seen: Seen,
}
#[derive(Debug)]
pub enum Failed {
    Tpm(u32),
    Peer,
}
impl core::fmt::Display for Failed {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("failed")
    }
}
impl core::error::Error for Failed {}
impl From<BaseTss> for Failed {
    fn from(e: BaseTss) -> Self {
        Failed::Tpm(e.get())
    }
}
impl Connection for Peer<'_> {
    type Error = Failed;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], Failed> {
        self.seen.bytes(cmd);
        self.seen.n(rsp.len() as u64);
        if self.fail {
            return Err(Failed::Peer);
        }
        let n = self.reply.len().min(rsp.len());
        rsp[..n].copy_from_slice(&self.reply[..n]);
        Ok(&mut rsp[..n])
    }
}
struct Other(TpmsAuthCommand);
impl Session for Other {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        self.0
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> tpm2_rs_base::errors::TssResult<()> {
        if a.nonce.get_size() > 3 { Err(tpm2_rs_base::errors::TpmRcError::Value.into()) } else { Ok(()) }
    }
}
/// Input: sessions, length of the password, length of the handles, lengths of the
/// command and its authorization (two bytes each), then these and the reply.
fn client<C: TpmCommand<RespT: Marshalable, RespHandles: Marshalable>>(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    let Some((h, b)) = b.split_first_chunk::<8>() else { return };
    let len = |i: usize| u16::from_be_bytes([h[i], h[i + 1]]) as usize;
    let mut rest = b;
    let mut part = |n: usize| {
        let (a, z) = rest.split_at(n.min(rest.len()));
        rest = z;
        a
    };
    let (pw, hs, cmd, auth) = (part(h[1] as usize), part(h[2] as usize), part(len(4)), part(len(6)));
    let Ok(cmd) = C::try_unmarshal(&mut UnmarshalBuf::new(cmd)) else { return };
    let Ok(hs) = C::Handles::try_unmarshal(&mut UnmarshalBuf::new(hs)) else { return };
    let mut p = Peer { reply: rest, fail: h[0] & 0x80 != 0, seen: Seen(0) };
    let Ok(pass) = PasswordSession::new(pw) else {
        return s.n(77);
    };
    let auth = TpmsAuthCommand::try_unmarshal(&mut UnmarshalBuf::new(auth));
    let r = match (h[0] & 0x7F, auth) {
        (0, _) | (_, Err(_)) => run_command_with_handles(&cmd, hs, (), &mut p),
        (1, Ok(_)) => run_command_with_handles(&cmd, hs, pass, &mut p),
        (2, Ok(a)) => run_command_with_handles(&cmd, hs, (pass, Other(a)), &mut p),
        (_, Ok(a)) => run_command_with_handles(&cmd, hs, (Other(a), pass, Other(a)), &mut p),
    };
    s.n(p.seen.0);
    match r {
        Ok((r, h)) => {
            encoded(&r, dst, s);
            encoded(&h, dst, s);
        }
        Err(Failed::Tpm(e)) => s.n(e as u64),
        Err(Failed::Peer) => s.n(78),
    }
}

// ---- server ------------------------------------------------------------------------------

struct Source(u8);
impl EntropySource for Source {
    fn instantiate() -> Self {
        Source(0)
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        for x in dest {
            self.0 = self.0.wrapping_mul(5).wrapping_add(17);
            *x = self.0;
        }
    }
}
/// Fails and wants to be reseeded every now and then.
struct Gen(u64, u64);
impl Gen {
    fn next(&mut self) -> Result<u64, DrbgError> {
        self.0 += 1;
        self.1 = self.1.rotate_left(7) ^ self.0.wrapping_mul(0x1000_0000_01b3);
        if self.1 % 13 == 0 && self.0 % 1024 == 5 { Err(DrbgError) } else { Ok(self.1) }
    }
}
impl Drbg for Gen {
    type Entropy = [u8; 32];
    type Nonce = [u8; 16];
    fn instantiate(e: &[u8; 32], n: &[u8; 16], _: &[u8]) -> Result<Self, DrbgError> {
        Ok(Gen(e[31] as u64, n[15] as u64))
    }
    fn reseed(&mut self, e: &[u8; 32], _: &[u8]) -> Result<(), DrbgError> {
        self.1 ^= e[0] as u64;
        if self.0 % 5 == 0 { Err(DrbgError) } else { self.next().map(|_| ()) }
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        self.next().map(|x| x as u32)
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        self.next()
    }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> {
        if self.0 % 7 == 0 { Err(DrbgError) } else { drbg_helpers::fill_bytes_via_next(self, a, d) }
    }
    fn requires_reseeding(&mut self) -> bool {
        self.0 += 1;
        self.0 % 3 == 0
    }
}
struct Deps;
impl TpmContextDeps for Deps {
    type Drbg = Gen;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}
/// Input: records of a response length, a request length (two bytes each) and the request.
fn server(mut b: &[u8], dst: &mut [u8], s: &mut Seen) {
    let Ok(mut c) = tpm2_impl::TpmContext::<Deps>::new() else { return s.n(5) };
    while let Some((h, rest)) = b.split_first_chunk::<4>() {
        let n = u16::from_be_bytes([h[0], h[1]]) as usize;
        let k = u16::from_be_bytes([h[2], h[3]]) as usize;
        let (req, rest) = rest.split_at(k.min(rest.len()));
        b = rest;
        let dst = &mut dst[..n];
        let m = c.execute_command_separate(req, dst);
        s.bytes(&dst[..m]);
        let k = req.len().min(n);
        dst[..k].copy_from_slice(&req[..k]);
        let m = c.execute_command_in_place(dst, if k == req.len() { k } else { usize::MAX });
        s.bytes(&dst[..m]);
    }
}
fn helpers(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    let mut g = Gen(b.len() as u64, 3);
    let n = b.iter().map(|x| *x as usize).sum::<usize>().min(dst.len());
    s.n(drbg_helpers::fill_bytes_via_next(&mut g, b, &mut dst[..n]).is_ok() as u64);
    s.bytes(&dst[..n]);
    for _ in 0..6 {
        s.n(drbg_helpers::next_u64_via_u32(&mut g, b).unwrap_or(1));
        s.n(drbg_helpers::next_u64_via_fill(&mut g, b).unwrap_or(2));
        s.n(drbg_helpers::next_u32_via_fill(&mut g, b).unwrap_or(3) as u64);
    }
}

// ---- core crate and numbers ----------------------------------------------------------------

#[derive(Clone, Copy)]
struct Lim(u8);
impl tpm2::Limits for Lim {
    fn supports_hash(self, h: tpm2::TpmiAlgHash) -> bool {
        self.0 >> (tpm2::Alg::from(h).0 % 8) & 1 == 1
    }
}
fn core_codecs(b: &[u8], dst: &mut [u8], s: &mut Seen) {
    use tpm2::{Marshal, Unmarshal};
    let Some((l, b)) = b.split_first() else { return };
    let lim = Lim(*l);
    fn both<'s, T: Marshal + Unmarshal<'s>>(lim: Lim, mut v: T, b: &'s [u8], dst: &mut [u8], s: &mut Seen) {
        s.n(v.unmarshal(lim, b).map_or(u64::MAX, |r| r.len() as u64));
        let n = v.marshaled_size();
        s.n(n as u64 ^ (T::marshaled_size_max(lim) as u64) << 20);
        s.n(v.marshal(lim, dst).map_or(u64::MAX, |r| r.len() as u64));
        s.bytes(&dst[..n]);
        s.n(v.marshal(lim, &mut dst[..n / 2]).map_or(u64::MAX, |r| r.len() as u64));
    }
    both(lim, 0u8, b, dst, s);
    both(lim, 0u16, b, dst, s);
    both(lim, 0u32, b, dst, s);
    both(lim, 0u64, b, dst, s);
    both(lim, 0i64, b, dst, s);
    both(lim, tpm2::Alg(1), b, dst, s);
    both(lim, tpm2::TpmiAlgHash::Sha1, b, dst, s);
    both(lim, tpm2::TpmtHa::Sha1(&[9; 20]), b, dst, s);
}
fn numbers(b: &[u8], _: &mut [u8], s: &mut Seen) {
    for c in b.chunks_exact(4) {
        let v = u32::from_be_bytes(c.try_into().unwrap_or_default());
        if let Ok(e) = TssError::try_from(v) {
            s.n(e.get() as u64);
            let _ = write!(s, "{e} {e:?}");
        }
        if let Ok(e) = BaseTss::try_from(v) {
            let _ = write!(s, "{e} {e:?}");
        }
        s.n(TpmiRhNvIndex::try_from(v).is_ok() as u64);
        s.n(TpmiShAuthSession::try_from(v).is_ok() as u64);
        let mut a = TpmaNv(v);
        a.set_type(a.get_index_type());
        s.n(a.0 as u64);
        for k in [ErrorType::Handle, ErrorType::Parameter, ErrorType::Session] {
            let e = TpmRcError::ValueFor(k, if v % 2 == 0 { ErrorPosition::Pos1 } else { ErrorPosition::Pos7 });
            s.n(e.get() as u64 ^ (e.is_warning() as u64) << 40 ^ (e.format1_parameter().is_some() as u64) << 41);
            s.n(TssError::from(e).get() as u64);
        }
    }
    for e in [Error::UnexpectedEndOfBuffer, Error::ArrayLengthExceeded, Error::UnknownSelector] {
        let _ = write!(s, "{e:?}");
        s.n(BaseTss::from(tpm2_rs_base::errors::TpmRcError::from(e)).get() as u64);
    }
}
fn cursor(b: &[u8], _: &mut [u8], s: &mut Seen) {
    let mut u = UnmarshalBuf::new(b);
    for k in [0, 1, 2, usize::MAX, 7, b.len(), 3] {
        s.n(u.get(k).map_or(u64::MAX, |x| x.len() as u64));
        s.n(u.len() as u64);
    }
}

macro_rules! table {
    ($($f:ident: $($t:ty),* ;)* $(= $($g:ident),*)?) => {
        /// The steps: kind, name of the type or operation, and what to call.
        pub const STEPS: &[(&str, &str, Step)] = &[$($((stringify!($f), stringify!($t), $f::<$t>),)*)* $($(("step", stringify!($g), $g),)*)?];
    };
}
table! {
    codec: u8, u16, u32, u64, i8, i16, i32, i64, (), [u8; 0], [u8; 1], [u8; 7], [u8; 64], TpmsEmpty,
        TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic,
        TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme,
        TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmCc, TpmSt, TpmSu, TpmCap,
        TpmPt, TpmPtPcr, TpmHandle, TpmGenerated, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits, TpmiRsaKeyBits,
        TpmiEccCurve, TpmHc, TpmiRhNvIndex, TpmiShAuthSession,
        Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
        Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
        Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
        Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData,
        TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo, TpmsSessionAuditInfo,
        TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive, TpmsSensitiveCreate, TpmsEccPoint, TpmsSchemeXor,
        TpmsSchemeHash, TpmsSchemeEcdaa, TpmsKeyedHashParms, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc,
        TpmsRsaParms, TpmsEccParms, TpmsAsymParms, TpmsAlgProperty, TpmsTaggedProperty, TpmsAuthCommand, TpmsAuthResponse,
        TpmsIdObject, TpmsNvPublic, TpmsContextData, TpmsCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd,
        GetRandomResp, StartupCmd, RespHeader, CmdHeader, TpmsTaggedPcrSelect, TpmsTaggedPolicy, TpmlCca, PcrReadCmd,
        PcrReadResp, TpmsPcrSelection, TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty,
        TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest, TpmsAttest, TpmtPublic, TpmtSensitive,
        TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme,
        TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData;
    variant: TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme,
        TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData;
    buffer: Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
        Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
        Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
        Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData;
    structured: Tpm2bPublic, Tpm2bCreationData, Tpm2bSensitiveCreate;
    client: GetCapabilityCmd, PcrReadCmd, GetRandomCmd, StartupCmd;
    = server, helpers, core_codecs, numbers, cursor, TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty,
        TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest
}
/// Enough for every destination of a step.
pub const ROOM: usize = 66_000;
