//! Every wire type of the library: its reference shape, a generator of values
//! together with their reference encodings, and type-erased access to the codec
//! under test. Layouts, selectors and capacities are spelled out here, not taken
//! from the code under test.
use crate::rng::Rng;
use crate::shape::Shape;
use safe_discriminant::Discriminant;
use std::any::Any;
use std::fmt::Debug;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::{Error, Marshalable, MarshalableVariant, UnmarshalBuf};
use tpm2_rs_base::*;

pub trait Wire: Sized + Marshalable + PartialEq + Debug + Clone + 'static {
    fn shape() -> Shape;
    /// Makes a value and appends its reference encoding to `out`.
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self;
}

/// Value of a type under test.
pub trait AnyVal {
    fn encode(&self, dst: &mut [u8]) -> Result<usize, Error>;
    fn same(&self, o: &dyn AnyVal) -> bool;
    fn dbg(&self) -> String;
    fn any(&self) -> &dyn Any;
}
impl<T: Wire> AnyVal for T {
    fn encode(&self, dst: &mut [u8]) -> Result<usize, Error> {
        self.try_marshal(dst)
    }
    fn same(&self, o: &dyn AnyVal) -> bool {
        o.any().downcast_ref::<T>().is_some_and(|o| o == self)
    }
    fn dbg(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 300 { format!("{}...", &s[..300]) } else { s }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

pub struct VariantOps {
    pub width: usize,
    pub disc: fn(&dyn AnyVal) -> u64,
    pub encode: fn(&dyn AnyVal, &mut [u8]) -> Result<usize, Error>,
    pub decode: fn(u64, &mut UnmarshalBuf) -> Result<Box<dyn AnyVal>, Error>,
}

pub struct TypeInfo {
    pub name: &'static str,
    pub shape: Shape,
    pub make: fn(&mut Rng) -> (Box<dyn AnyVal>, Vec<u8>),
    pub decode: fn(&mut UnmarshalBuf) -> Result<Box<dyn AnyVal>, Error>,
    pub variant: Option<VariantOps>,
}

pub fn make<T: Wire>(r: &mut Rng) -> (Box<dyn AnyVal>, Vec<u8>) {
    let mut out = vec![];
    let v = T::arb(r, &mut out);
    (Box::new(v), out)
}
pub fn decode<T: Wire>(b: &mut UnmarshalBuf) -> Result<Box<dyn AnyVal>, Error> {
    T::try_unmarshal(b).map(|v| Box::new(v) as Box<dyn AnyVal>)
}
pub fn info<T: Wire>(name: &'static str) -> TypeInfo {
    TypeInfo { name, shape: T::shape(), make: make::<T>, decode: decode::<T>, variant: None }
}
pub fn vinfo<T: Wire + MarshalableVariant>(name: &'static str) -> TypeInfo
where
    <T as Discriminant>::Repr: TryFrom<u64> + Into<u64>,
{
    fn disc<T: Wire + MarshalableVariant>(v: &dyn AnyVal) -> u64
    where
        <T as Discriminant>::Repr: Into<u64>,
    {
        v.any().downcast_ref::<T>().unwrap().discriminant().into()
    }
    fn enc<T: Wire + MarshalableVariant>(v: &dyn AnyVal, d: &mut [u8]) -> Result<usize, Error> {
        v.any().downcast_ref::<T>().unwrap().try_marshal_variant(d)
    }
    fn dec<T: Wire + MarshalableVariant>(s: u64, b: &mut UnmarshalBuf) -> Result<Box<dyn AnyVal>, Error>
    where
        <T as Discriminant>::Repr: TryFrom<u64>,
    {
        let s = <T as Discriminant>::Repr::try_from(s).ok().expect("selector width");
        T::try_unmarshal_variant(s, b).map(|v| Box::new(v) as Box<dyn AnyVal>)
    }
    let mut i = info::<T>(name);
    i.variant = Some(VariantOps { width: i.shape.sel_width(), disc: disc::<T>, encode: enc::<T>, decode: dec::<T> });
    i
}

/// Value with private contents, obtained by decoding its reference encoding.
pub fn by_decoding<T: Wire>(bytes: &[u8]) -> T {
    let mut b = UnmarshalBuf::new(bytes);
    T::try_unmarshal(&mut b)
        .unwrap_or_else(|e| panic!("well-formed {} rejected: {e:?}", std::any::type_name::<T>()))
}

// ---- leaves ---------------------------------------------------------------

macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Int(size_of::<$t>()) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let v = r.edgy_u64(8 * size_of::<$t>() as u32);
                out.extend_from_slice(&v.to_be_bytes()[8 - size_of::<$t>()..]);
                v as $t
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, i8, i16, i32, i64);

impl Wire for () {
    fn shape() -> Shape {
        Shape::Unit
    }
    fn arb(_: &mut Rng, _: &mut Vec<u8>) -> Self {}
}
impl<const N: usize> Wire for [u8; N] {
    fn shape() -> Shape {
        Shape::Bytes(N)
    }
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
        let b = r.bytes(N);
        out.extend_from_slice(&b);
        b.try_into().unwrap()
    }
}
impl Wire for TpmsEmpty {
    fn shape() -> Shape {
        Shape::Unit
    }
    fn arb(_: &mut Rng, _: &mut Vec<u8>) -> Self {
        TpmsEmpty
    }
}

/// Newtypes around an integer; sometimes a value the specification names.
macro_rules! newtype {
    ($($t:ident($i:ty) [$($v:expr),*]),* $(,)?) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Int(size_of::<$i>()) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let known: &[u64] = &[$($v),*];
                let v = if !known.is_empty() && r.chance(1, 2) { *r.pick(known) } else { r.edgy_u64(8 * size_of::<$i>() as u32) };
                out.extend_from_slice(&v.to_be_bytes()[8 - size_of::<$i>()..]);
                $t(v as $i)
            }
        }
    )*};
}
newtype! {
    TpmaLocality(u8) [0x1f, 0x20], TpmaNv(u32) [0x00020002, 0xf0], TpmaObject(u32) [0x300b2],
    TpmaAlgorithm(u32) [0x70f], TpmaSession(u8) [1, 0x61], TpmaCc(u32) [0x12400153],
    TpmiAlgHash(u16) [4, 0xb, 0xc, 0xd, 0x12, 0x27, 0x28, 0x29, 0x10],
    TpmiAlgKdf(u16) [7, 0x20, 0x21, 0x22], TpmiAlgPublic(u16) [1, 8, 0x23, 0x25],
    TpmiAlgSymMode(u16) [0x3f, 0x40, 0x41, 0x42, 0x43, 0x44],
    TpmiAlgSymObject(u16) [3, 6, 0x13, 0x26], TpmiAlgKeyedhashScheme(u16) [5, 0xa],
    TpmiAlgRsaScheme(u16) [0x14], TpmiAlgSigScheme(u16) [0x18], TpmiAlgEccScheme(u16) [0x1a],
    TpmiAlgAsymScheme(u16) [0x17], TpmiYesNo(u8) [0, 1], TpmiStAttest(u16) [0x8017, 0x801c],
    TpmiStCommandTag(u16) [0x8001, 0x8002],
    TpmAlgId(u16) [1, 0x44], TpmEccCurve(u16) [3, 4], TpmCc(u32) [0x17a, 0x17b], TpmSt(u16) [0x8001, 0xc4],
    TpmSu(u16) [0, 1], TpmCap(u32) [0, 6], TpmPt(u32) [0x100, 0x212], TpmPtPcr(u32) [0, 0x14],
    TpmHandle(u32) [0x40000001, 0x40000009], TpmGenerated(u32) [0xff544347],
}
/// Newtypes whose integer is private.
macro_rules! opaque_int {
    ($($t:ident($w:expr) [$($v:expr),*]),* $(,)?) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Int($w) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let known: &[u64] = &[$($v),*];
                let v = if r.chance(1, 2) { *r.pick(known) } else { r.edgy_u64(8 * $w) };
                let b = &v.to_be_bytes()[8 - $w..];
                out.extend_from_slice(b);
                by_decoding(b)
            }
        }
    )*};
}
opaque_int! {
    TpmiAesKeyBits(2) [128, 256], TpmiSm4KeyBits(2) [128], TpmiCamelliaKeyBits(2) [128, 192],
    TpmiRsaKeyBits(2) [2048, 3072], TpmiEccCurve(2) [3, 0x20], TpmHc(4) [0x02000000, 0x81000001],
    TpmiRhNvIndex(4) [0x01000000, 0x01c00002], TpmiShAuthSession(4) [0x40000009, 0x02000001, 0x03000000],
}

// ---- sized buffers --------------------------------------------------------

macro_rules! b2 {
    ($($t:ident [$max:expr]),* $(,)?) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::B2($max) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let n = r.len_upto($max);
                let n = if out.len() > 5000 { n.min(4) } else { n };
                let b = r.bytes(n);
                out.extend_from_slice(&(n as u16).to_be_bytes());
                out.extend_from_slice(&b);
                <$t as Tpm2bSimple>::from_bytes(&b).unwrap_or_else(|e| panic!("{}::from_bytes of {n} bytes: {e:?}", stringify!($t)))
            }
        }
    )*};
}
b2! {
    Tpm2bDigest[64], Tpm2bData[64], Tpm2bEvent[1024], Tpm2bMaxBuffer[1024], Tpm2bMaxNvBuffer[2048], Tpm2bIv[16],
    Tpm2bName[<Tpm2bName as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bAttest[<Tpm2bAttest as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bSymKey[32], Tpm2bLabel[32], Tpm2bSensitiveData[256],
    Tpm2bSensitiveCreate[<Tpm2bSensitiveCreate as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bPublicKeyRsa[512], Tpm2bPrivateKeyRsa[256], Tpm2bEccParameter[128],
    Tpm2bEncryptedSecret[<Tpm2bEncryptedSecret as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bPublic[<Tpm2bPublic as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bTemplate[<Tpm2bTemplate as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bPrivateVendorSpecific[1280],
    Tpm2bPrivate[<Tpm2bPrivate as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bIdObject[<Tpm2bIdObject as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bContextSensitive[5120],
    Tpm2bContextData[<Tpm2bContextData as Tpm2bSimple>::MAX_BUFFER_SIZE],
    Tpm2bCreationData[<Tpm2bCreationData as Tpm2bSimple>::MAX_BUFFER_SIZE],
}
/// The capacity each sized buffer needs at least, from the structure it holds.
pub fn b2_minimums() -> Vec<(&'static str, usize, usize)> {
    fn m<T: Tpm2bSimple>() -> usize {
        T::MAX_BUFFER_SIZE
    }
    vec![
        ("Tpm2bDigest", m::<Tpm2bDigest>(), 64),
        ("Tpm2bData", m::<Tpm2bData>(), 64),
        ("Tpm2bEvent", m::<Tpm2bEvent>(), 1024),
        ("Tpm2bMaxBuffer", m::<Tpm2bMaxBuffer>(), 1024),
        ("Tpm2bMaxNvBuffer", m::<Tpm2bMaxNvBuffer>(), 2048),
        ("Tpm2bIv", m::<Tpm2bIv>(), 16),
        // alg id and the largest digest
        ("Tpm2bName", m::<Tpm2bName>(), 66),
        ("Tpm2bAttest", m::<Tpm2bAttest>(), 4 + 2 + 68 + 66 + 17 + 8 + 68 + 2 + 2050),
        ("Tpm2bSymKey", m::<Tpm2bSymKey>(), 32),
        ("Tpm2bLabel", m::<Tpm2bLabel>(), 32),
        ("Tpm2bSensitiveData", m::<Tpm2bSensitiveData>(), 256),
        ("Tpm2bSensitiveCreate", m::<Tpm2bSensitiveCreate>(), 66 + 258),
        ("Tpm2bPublicKeyRsa", m::<Tpm2bPublicKeyRsa>(), 512),
        ("Tpm2bPrivateKeyRsa", m::<Tpm2bPrivateKeyRsa>(), 256),
        ("Tpm2bEccParameter", m::<Tpm2bEccParameter>(), 128),
        ("Tpm2bEncryptedSecret", m::<Tpm2bEncryptedSecret>(), 512),
        ("Tpm2bPublic", m::<Tpm2bPublic>(), 2 + 2 + 4 + 66 + 6 + 6 + 2 + 4 + 514),
        ("Tpm2bTemplate", m::<Tpm2bTemplate>(), 2 + 2 + 4 + 66 + 6 + 6 + 2 + 4 + 514),
        ("Tpm2bPrivateVendorSpecific", m::<Tpm2bPrivateVendorSpecific>(), 1280),
        ("Tpm2bPrivate", m::<Tpm2bPrivate>(), 66 + 66 + 2 + 2 + 66 + 66 + 1282),
        ("Tpm2bIdObject", m::<Tpm2bIdObject>(), 132),
        ("Tpm2bContextSensitive", m::<Tpm2bContextSensitive>(), 5120),
        ("Tpm2bContextData", m::<Tpm2bContextData>(), 66 + 5122),
        ("Tpm2bCreationData", m::<Tpm2bCreationData>(), 4 + 16 * 7 + 66 + 1 + 2 + 68 + 68 + 66),
    ]
}

// ---- structures -----------------------------------------------------------

macro_rules! wstruct {
    ($($t:ident { $($f:ident : $ft:ty),* $(,)? })*) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Seq(vec![$(<$ft as Wire>::shape()),*]) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                $(let $f = <$ft as Wire>::arb(r, out);)*
                $t { $($f),* }
            }
        }
    )*};
}
wstruct! {
    TpmsClockInfo { clock: u64, reset_count: u32, restart_count: u32, safe: TpmiYesNo }
    TpmsQuoteInfo { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest }
    TpmsCreationInfo { object_name: Tpm2bName, creation_hash: Tpm2bDigest }
    TpmsCertifyInfo { name: Tpm2bName, qualified_name: Tpm2bName }
    TpmsCommandAuditInfo { audit_counter: u64, digest_alg: u16, audit_digest: Tpm2bDigest, command_digest: Tpm2bDigest }
    TpmsSessionAuditInfo { exclusive_session: TpmiYesNo, session_digest: Tpm2bDigest }
    TpmsTimeInfo { time: u64, clock_info: TpmsClockInfo }
    TpmsTimeAttestInfo { time: TpmsTimeInfo, firmware_version: u64 }
    TpmsNvCertifyInfo { index_name: Tpm2bName, offset: u16, nv_contents: Tpm2bMaxNvBuffer }
    TpmsDerive { label: Tpm2bLabel, context: Tpm2bLabel }
    TpmsSensitiveCreate { user_auth: Tpm2bDigest, data: Tpm2bSensitiveData }
    TpmsEccPoint { x: Tpm2bEccParameter, y: Tpm2bEccParameter }
    TpmsSchemeXor { hash_alg: TpmiAlgHash, kdf: TpmiAlgKdf }
    TpmsSchemeHash { hash_alg: TpmiAlgHash }
    TpmsSchemeEcdaa { hash_alg: TpmiAlgHash, count: u16 }
    TpmsKeyedHashParms { scheme: TpmtKeyedHashScheme }
    TpmsSymCipherParms { sym: TpmtSymDefObject }
    TpmsSignatureRsa { hash: TpmiAlgHash, sig: Tpm2bPublicKeyRsa }
    TpmsSignatureEcc { hash: TpmiAlgHash, signature_r: Tpm2bEccParameter, signature_s: Tpm2bEccParameter }
    TpmsRsaParms { symmetric: TpmtSymDefObject, scheme: TpmtRsaScheme, key_bits: TpmiRsaKeyBits, exponent: u32 }
    TpmsEccParms { symmetric: TpmtSymDefObject, scheme: TpmtEccScheme, curve_id: TpmiEccCurve, kdf: TpmtKdfScheme }
    TpmsAsymParms { symmetric: TpmtSymDefObject, scheme: TpmtAsymScheme }
    TpmsAlgProperty { alg: TpmAlgId, alg_properties: TpmaAlgorithm }
    TpmsTaggedProperty { property: TpmPt, value: u32 }
    TpmsAuthCommand { session_handle: TpmiShAuthSession, nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bDigest }
    TpmsAuthResponse { nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bData }
    TpmsIdObject { integrity_hmac: Tpm2bDigest, enc_identity: Tpm2bDigest }
    TpmsNvPublic { nv_index: TpmiRhNvIndex, name_alg: TpmiAlgHash, attributes: TpmaNv, auth_policy: Tpm2bDigest, data_size: u16 }
    TpmsContextData { integrity: Tpm2bDigest, encrypted: Tpm2bContextSensitive }
    TpmsCreationData { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest, locality: TpmaLocality, parent_name_alg: TpmAlgId,
        parent_name: Tpm2bName, parent_qualified_name: Tpm2bName, outside_info: Tpm2bData }
    GetCapabilityCmd { capability: TpmCap, property: TpmPt, property_count: u32 }
    GetCapabilityResp { more_data: TpmiYesNo, capability_data: TpmsCapabilityData }
    GetRandomCmd { bytes_requested: u16 }
    GetRandomResp { random_bytes: Tpm2bDigest }
    StartupCmd { startup_type: TpmSu }
}
use tpm2_client::{CmdHeader, RespHeader};
wstruct! { RespHeader { tag: TpmSt, size: u32, rc: u32 } }

/// Structures with private fields.
macro_rules! opaque {
    ($($t:ident = $shape:expr),* $(,)?) => {$(
        impl Wire for $t {
            fn shape() -> Shape { $shape }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let b = crate::shape::well_formed(&$shape, r);
                out.extend_from_slice(&b);
                by_decoding(&b)
            }
        }
    )*};
}
fn cnt(w: usize, max: usize, e: Shape) -> Shape {
    Shape::Cnt { w, max, elem: Box::new(e) }
}
opaque! {
    CmdHeader = Shape::Seq(vec![Shape::Int(2), Shape::Int(4), Shape::Int(4)]),
    TpmsTaggedPcrSelect = Shape::Seq(vec![Shape::Int(4), cnt(1, 4, Shape::Int(1))]),
    TpmsTaggedPolicy = Shape::Seq(vec![Shape::Int(4), TpmtHa::shape()]),
    TpmlCca = cnt(4, 254, Shape::Int(4)),
    PcrReadCmd = TpmlPcrSelection::shape(),
    PcrReadResp = Shape::Seq(vec![Shape::Int(4), TpmlPcrSelection::shape(), TpmlDigest::shape()]),
}
impl Wire for TpmsPcrSelection {
    fn shape() -> Shape {
        Shape::Seq(vec![Shape::Int(2), cnt(1, 4, Shape::Int(1))])
    }
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
        let hash = TpmiAlgHash::arb(r, out);
        let n = r.below(5);
        let b = r.bytes(n);
        out.push(n as u8);
        out.extend_from_slice(&b);
        let mut pcr_select = [0; 4];
        pcr_select[..n].copy_from_slice(&b);
        TpmsPcrSelection { hash, sizeof_select: n as u8, pcr_select }
    }
}

// ---- lists ----------------------------------------------------------------

macro_rules! wlist {
    ($($t:ident [$max:expr] of $e:ty),* $(,)?) => {$(
        impl Wire for $t {
            fn shape() -> Shape { cnt(4, $max, <$e as Wire>::shape()) }
            fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
                let n = r.len_upto($max);
                let n = if out.len() > 5000 { n.min(3) } else { n };
                out.extend_from_slice(&(n as u32).to_be_bytes());
                let v: Vec<$e> = (0..n).map(|_| <$e as Wire>::arb(r, out)).collect();
                let what = stringify!($t);
                if r.chance(1, 2) {
                    $t::new(&v).unwrap_or_else(|e| panic!("{what}::new of {n}: {e:?}"))
                } else {
                    let mut l = $t::default();
                    for (i, e) in v.iter().enumerate() {
                        l.add(e).unwrap_or_else(|e| panic!("{what}::add after {i}: {e:?}"));
                    }
                    l
                }
            }
        }
    )*};
}
wlist! {
    TpmlPcrSelection[16] of TpmsPcrSelection, TpmlAlgProperty[127] of TpmsAlgProperty, TpmlHandle[254] of TpmHandle,
    TpmlCc[254] of TpmCc, TpmlTaggedTpmProperty[127] of TpmsTaggedProperty,
    TpmlTaggedPcrProperty[84] of TpmsTaggedPcrSelect, TpmlEccCurve[508] of TpmEccCurve,
    TpmlTaggedPolicy[14] of TpmsTaggedPolicy, TpmlDigest[8] of Tpm2bDigest,
}

// ---- unions ---------------------------------------------------------------

#[macro_export]
macro_rules! wenum {
    ($($t:ident [$w:expr] { $($sel:literal => $v:ident ( $($p:ty),* )),* $(,)? })*) => {$(
        impl $crate::types::Wire for $t {
            fn shape() -> $crate::shape::Shape {
                $crate::shape::Shape::Sel { w: $w, arms: vec![$(($sel, $crate::shape::Shape::Seq(vec![$(<$p as $crate::types::Wire>::shape()),*]))),*] }
            }
            #[allow(unused_assignments)]
            fn arb(r: &mut $crate::rng::Rng, out: &mut Vec<u8>) -> Self {
                let n = [$($sel as u64),*].len();
                let k = r.below(n);
                let mut i = 0;
                $(
                    if i == k {
                        out.extend_from_slice(&($sel as u64).to_be_bytes()[8 - $w..]);
                        return $t::$v($(<$p as $crate::types::Wire>::arb(r, out)),*);
                    }
                    i += 1;
                )*
                unreachable!()
            }
        }
    )*};
}
wenum! {
    TpmtHa [2] { 0x0004 => Sha1([u8; 20]), 0x000B => Sha256([u8; 32]), 0x000C => Sha384([u8; 48]), 0x000D => Sha512([u8; 64]),
        0x0012 => Sm3_256([u8; 32]) }
    TpmuAttest [2] { 0x8017 => Certify(TpmsCertifyInfo), 0x801A => Creation(TpmsCreationInfo), 0x8018 => Quote(TpmsQuoteInfo),
        0x8015 => CommandAudit(TpmsCommandAuditInfo), 0x8016 => SessionAudit(TpmsSessionAuditInfo), 0x8019 => Time(TpmsTimeAttestInfo),
        0x8014 => Nv(TpmsNvCertifyInfo) }
    TpmtKeyedHashScheme [2] { 0x0005 => Hmac(TpmsSchemeHash), 0x000A => ExclusiveOr(TpmsSchemeXor), 0x0010 => Null(TpmsEmpty) }
    TpmtSymDefObject [2] { 0x0006 => Aes(TpmiAesKeyBits, TpmiAlgSymMode), 0x0013 => Sm4(TpmiSm4KeyBits, TpmiAlgSymMode),
        0x0026 => Camellia(TpmiCamelliaKeyBits, TpmiAlgSymMode), 0x000A => ExclusiveOr(TpmiAlgHash, TpmsEmpty), 0x0010 => Null(TpmsEmpty, TpmsEmpty) }
    TpmtSignature [2] { 0x0014 => Rsassa(TpmsSignatureRsa), 0x0016 => Rsapss(TpmsSignatureRsa), 0x0018 => Ecdsa(TpmsSignatureEcc),
        0x001A => Ecdaa(TpmsSignatureEcc), 0x001B => Sm2(TpmsSignatureEcc), 0x001C => Ecschnorr(TpmsSignatureEcc), 0x0005 => Hmac(TpmtHa),
        0x0010 => Null(TpmsEmpty) }
    TpmtSigScheme [2] { 0x0014 => Rsassa(TpmsSchemeHash), 0x0016 => Rsapss(TpmsSchemeHash), 0x0018 => Ecdsa(TpmsSchemeHash),
        0x001A => Ecdaa(TpmsSchemeEcdaa), 0x001B => Sm2(TpmsSchemeHash), 0x001C => Ecschnorr(TpmsSchemeHash), 0x0005 => Hmac(TpmsSchemeHash),
        0x0010 => Null(TpmsEmpty) }
    TpmtRsaScheme [2] { 0x0016 => Rsapss(TpmsSchemeHash), 0x0014 => Rsassa(TpmsSchemeHash), 0x0018 => Ecdsa(TpmsSchemeHash),
        0x001A => Ecdaa(TpmsSchemeEcdaa), 0x001B => Sm2(TpmsSchemeHash), 0x001C => Ecschnorr(TpmsSchemeHash), 0x0015 => Rsaes(TpmsEmpty),
        0x0017 => Oaep(TpmsSchemeHash), 0x0010 => Null(TpmsEmpty) }
    TpmtEccScheme [2] { 0x0016 => Rsapss(TpmsSchemeHash), 0x0014 => Rsassa(TpmsSchemeHash), 0x0018 => Ecdsa(TpmsSchemeHash),
        0x001A => Ecdaa(TpmsSchemeEcdaa), 0x001B => Sm2(TpmsSchemeHash), 0x001C => Ecschnorr(TpmsSchemeHash), 0x0019 => Ecdh(TpmsSchemeHash),
        0x001D => Ecmqv(TpmsSchemeHash), 0x0010 => Null(TpmsEmpty) }
    TpmtKdfScheme [2] { 0x0007 => Mgf1(TpmsSchemeHash), 0x0020 => Kdf1Sp800_56a(TpmsSchemeHash), 0x0021 => Kdf2(TpmsSchemeHash),
        0x0022 => Kdf1Sp800_108(TpmsSchemeHash), 0x0010 => Null(TpmsEmpty) }
    TpmtAsymScheme [2] { 0x0019 => Ecdh(TpmsSchemeHash), 0x001D => Ecmqv(TpmsSchemeHash), 0x001B => Sm2(TpmsSchemeHash),
        0x0016 => Rsapss(TpmsSchemeHash), 0x0014 => Rsassa(TpmsSchemeHash), 0x0018 => Ecdsa(TpmsSchemeHash), 0x001A => Ecdaa(TpmsSchemeEcdaa),
        0x001C => Ecschnorr(TpmsSchemeHash), 0x0015 => Rsaes(TpmsEmpty), 0x0017 => Oaep(TpmsSchemeHash), 0x0010 => Null(TpmsEmpty) }
    PublicParmsAndId [2] { 0x0008 => KeyedHash(TpmsKeyedHashParms, Tpm2bDigest), 0x0025 => Sym(TpmsSymCipherParms, Tpm2bDigest),
        0x0001 => Rsa(TpmsRsaParms, Tpm2bPublicKeyRsa), 0x0023 => Ecc(TpmsEccParms, TpmsEccPoint) }
    TpmuSensitiveComposite [2] { 0x0001 => Rsa(Tpm2bPrivateKeyRsa), 0x0023 => Ecc(Tpm2bEccParameter), 0x0008 => Bits(Tpm2bSensitiveData),
        0x0025 => Sym(Tpm2bSymKey), 0x0010 => Any(Tpm2bPrivateVendorSpecific) }
    TpmsCapabilityData [4] { 0 => Algorithms(TpmlAlgProperty), 1 => Handles(TpmlHandle), 2 => Command(TpmlCca), 3 => PpCommands(TpmlCc),
        4 => AuditCommands(TpmlCc), 5 => AssignedPcr(TpmlPcrSelection), 6 => TpmProperties(TpmlTaggedTpmProperty),
        7 => PcrProperties(TpmlTaggedPcrProperty), 8 => EccCurves(TpmlEccCurve), 9 => AuthPolicies(TpmlTaggedPolicy) }
}

fn arms_of(s: Shape) -> Vec<(u64, Shape)> {
    match s {
        Shape::Sel { arms, .. } => arms,
        _ => unreachable!(),
    }
}
/// Splits the encoding of a union into selector and body.
fn split_sel<T: Wire>(r: &mut Rng) -> (T, Vec<u8>, Vec<u8>) {
    let mut b = vec![];
    let v = T::arb(r, &mut b);
    let body = b.split_off(2);
    (v, b, body)
}
impl Wire for TpmsAttest {
    fn shape() -> Shape {
        Shape::Deferred {
            pre: Box::new(Shape::Int(4)),
            w: 2,
            mid: Box::new(Shape::Seq(vec![
                Tpm2bName::shape(),
                Tpm2bData::shape(),
                TpmsClockInfo::shape(),
                Shape::Int(8),
            ])),
            arms: arms_of(TpmuAttest::shape()),
        }
    }
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
        let magic = TpmGenerated::arb(r, out);
        let (attested, sel, body) = split_sel::<TpmuAttest>(r);
        out.extend(sel);
        let qualified_signer = Tpm2bName::arb(r, out);
        let extra_data = Tpm2bData::arb(r, out);
        let clock_info = TpmsClockInfo::arb(r, out);
        let firmware_version = u64::arb(r, out);
        out.extend(body);
        TpmsAttest { magic, qualified_signer, extra_data, clock_info, firmware_version, attested }
    }
}
impl Wire for TpmtPublic {
    fn shape() -> Shape {
        Shape::Deferred {
            pre: Box::new(Shape::Unit),
            w: 2,
            mid: Box::new(Shape::Seq(vec![Shape::Int(2), Shape::Int(4), Tpm2bDigest::shape()])),
            arms: arms_of(PublicParmsAndId::shape()),
        }
    }
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
        let (parms_and_id, sel, body) = split_sel::<PublicParmsAndId>(r);
        out.extend(sel);
        let name_alg = TpmiAlgHash::arb(r, out);
        let object_attributes = TpmaObject::arb(r, out);
        let auth_policy = Tpm2bDigest::arb(r, out);
        out.extend(body);
        TpmtPublic { name_alg, object_attributes, auth_policy, parms_and_id }
    }
}
impl Wire for TpmtSensitive {
    fn shape() -> Shape {
        Shape::Deferred {
            pre: Box::new(Shape::Unit),
            w: 2,
            mid: Box::new(Shape::Seq(vec![Tpm2bDigest::shape(), Tpm2bDigest::shape()])),
            arms: arms_of(TpmuSensitiveComposite::shape()),
        }
    }
    fn arb(r: &mut Rng, out: &mut Vec<u8>) -> Self {
        let (sensitive, sel, body) = split_sel::<TpmuSensitiveComposite>(r);
        out.extend(sel);
        let auth_value = Tpm2bDigest::arb(r, out);
        let seed_value = Tpm2bDigest::arb(r, out);
        out.extend(body);
        TpmtSensitive { auth_value, seed_value, sensitive }
    }
}

macro_rules! plain {
    ($($t:ty),* $(,)?) => { vec![$(info::<$t>(stringify!($t))),*] };
}
macro_rules! unions {
    ($($t:ty),* $(,)?) => { vec![$(vinfo::<$t>(stringify!($t))),*] };
}

/// All wire types of the library.
pub fn all() -> Vec<TypeInfo> {
    let mut v = plain![
        u8, u16, u32, u64, i8, i16, i32, i64, (), [u8; 0], [u8; 1], [u8; 7], [u8; 64], TpmsEmpty,
        TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic,
        TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme,
        TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmCc, TpmSt, TpmSu, TpmCap,
        TpmPt, TpmPtPcr, TpmHandle, TpmGenerated, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits, TpmiRsaKeyBits,
        TpmiEccCurve, TpmHc, TpmiRhNvIndex, TpmiShAuthSession,
        Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
        Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
        Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
        Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData,
        TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo, TpmsSessionAuditInfo,
        TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive, TpmsSensitiveCreate, TpmsEccPoint, TpmsSchemeXor,
        TpmsSchemeHash, TpmsSchemeEcdaa, TpmsKeyedHashParms, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc,
        TpmsRsaParms, TpmsEccParms, TpmsAsymParms, TpmsAlgProperty, TpmsTaggedProperty, TpmsAuthCommand, TpmsAuthResponse,
        TpmsIdObject, TpmsNvPublic, TpmsContextData, TpmsCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd,
        GetRandomResp, StartupCmd, RespHeader, CmdHeader, TpmsTaggedPcrSelect, TpmsTaggedPolicy, TpmlCca, PcrReadCmd,
        PcrReadResp, TpmsPcrSelection, TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty,
        TpmlTaggedPcrProperty, TpmlEccCurve, TpmlTaggedPolicy, TpmlDigest, TpmsAttest, TpmtPublic, TpmtSensitive,
    ];
    v.extend(unions![
        TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme,
        TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData,
    ]);
    v
}
