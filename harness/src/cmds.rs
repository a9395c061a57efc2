//! Commands and sessions for the client monitors: the library's commands, user
//! commands with handles and large parameters, and sessions that record what
//! they are shown.
use crate::rng::Rng;
use crate::shape::*;
use crate::types::*;
use std::cell::RefCell;
use tpm2_client::connection::Connection;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::{TssError, TssResult};
use tpm2_rs_base::marshal::Marshalable;
use tpm2_rs_base::*;
use tpm2_rs_marshalable;

/// A command whose areas all have reference encodings.
pub trait TestCmd: Wire + TpmCommand<Handles: Wire, RespT: Wire, RespHandles: Wire> {
    const NAME: &'static str;
    /// The code the specification gives it.
    const CODE: u32;
    /// A value and encoding of about `len` bytes, where the type allows it.
    fn sized(r: &mut Rng, _len: usize) -> (Self, Vec<u8>) {
        let mut o = vec![];
        let v = Self::arb(r, &mut o);
        (v, o)
    }
    fn sized_resp(r: &mut Rng, _len: usize) -> (Self::RespT, Vec<u8>) {
        let mut o = vec![];
        let v = Self::RespT::arb(r, &mut o);
        (v, o)
    }
}
macro_rules! lib_cmd {
    ($($t:ident $c:literal),*) => {$(
        impl TestCmd for $t { const NAME: &'static str = stringify!($t); const CODE: u32 = $c; }
    )*};
}
lib_cmd!(GetCapabilityCmd 0x17A, PcrReadCmd 0x17E, GetRandomCmd 0x17B, StartupCmd 0x144);

// ---- user commands ----------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct Handles3 {
    pub a: u32,
    pub b: u32,
    pub c: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct Handles2(pub u32, pub u32);
/// Up to 4105 bytes of parameters, in both directions.
#[derive(Clone, Copy, Debug, PartialEq, Default, Marshalable)]
pub struct Wide {
    pub a: u8,
    pub b: Tpm2bMaxNvBuffer,
    pub c: Tpm2bMaxNvBuffer,
    pub d: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct WideCmd {
    pub p: Wide,
}
/// No parameters and no response parameters, one handle each way.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct BareCmd {}
/// Nothing but a header, both ways.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct NilCmd {}
/// Structured areas.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct RichCmd {
    pub pcrs: TpmlPcrSelection,
    pub point: TpmsEccPoint,
}
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct RichResp {
    pub cap: TpmsCapabilityData,
    pub public: Tpm2bPublic,
    pub digests: TpmlDigest,
    pub last: u8,
}
/// A first parameter that looks like a size, so that skipped or repeated size
/// fields show.
#[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
pub struct IntCmd {
    pub x: u32,
    pub y: u64,
}
macro_rules! wires {
    ($($t:ident { $($f:ident : $ft:ty),* })*) => {$(
        impl Wire for $t {
            fn shape() -> Shape { Shape::Seq(vec![$(<$ft as Wire>::shape()),*]) }
            fn arb(_r: &mut Rng, _o: &mut Vec<u8>) -> Self {
                $(let $f = <$ft as Wire>::arb(_r, _o);)*
                $t { $($f),* }
            }
        }
    )*};
}
wires! {
    Handles3 { a: u32, b: u32, c: u32 }
    Wide { a: u8, b: Tpm2bMaxNvBuffer, c: Tpm2bMaxNvBuffer, d: u32 }
    WideCmd { p: Wide }
    BareCmd {}
    NilCmd {}
    RichCmd { pcrs: TpmlPcrSelection, point: TpmsEccPoint }
    RichResp { cap: TpmsCapabilityData, public: Tpm2bPublic, digests: TpmlDigest, last: u8 }
    IntCmd { x: u32, y: u64 }
}
impl Wire for Handles2 {
    fn shape() -> Shape {
        Shape::Seq(vec![Shape::Int(4), Shape::Int(4)])
    }
    fn arb(r: &mut Rng, o: &mut Vec<u8>) -> Self {
        let a = u32::arb(r, o);
        Handles2(a, u32::arb(r, o))
    }
}
macro_rules! user_cmd {
    ($($t:ident $c:literal $h:ty => $r:ty, $rh:ty;)*) => {$(
        impl TpmCommand for $t {
            const CMD_CODE: TpmCc = TpmCc($c);
            type Handles = $h;
            type RespT = $r;
            type RespHandles = $rh;
        }
    )*};
}
user_cmd! {
    WideCmd 0x2000_0001 Handles3 => Wide, Handles2;
    BareCmd 0x0000_0199 u32 => (), u32;
    NilCmd 0x0000_017C () => (), ();
    RichCmd 0xFFFF_FFFE Handles2 => RichResp, ();
    IntCmd 0x0000_0155 () => u64, u32;
}
lib_cmd!(BareCmd 0x199, NilCmd 0x17C, RichCmd 0xFFFF_FFFE, IntCmd 0x155);
fn wide(r: &mut Rng, len: usize) -> (Wide, Vec<u8>) {
    let n = len.saturating_sub(9).min(4096);
    let b = r.range(n.saturating_sub(2048), n.min(2048));
    let (x, y) = (r.bytes(b), r.bytes(n - b));
    let (a, d) = (r.u8(), r.u32());
    let mut o = vec![a];
    for v in [&x, &y] {
        o.extend_from_slice(&(v.len() as u16).to_be_bytes());
        o.extend_from_slice(v);
    }
    o.extend_from_slice(&d.to_be_bytes());
    let v = Wide { a, b: Tpm2bMaxNvBuffer::from_bytes(&x).unwrap(), c: Tpm2bMaxNvBuffer::from_bytes(&y).unwrap(), d };
    (v, o)
}
impl TestCmd for WideCmd {
    const NAME: &'static str = "WideCmd";
    const CODE: u32 = 0x2000_0001;
    fn sized(r: &mut Rng, len: usize) -> (Self, Vec<u8>) {
        let (p, o) = wide(r, len);
        (WideCmd { p }, o)
    }
    fn sized_resp(r: &mut Rng, len: usize) -> (Wide, Vec<u8>) {
        wide(r, len)
    }
}

// ---- sessions -----------------------------------------------------------------------

pub type Log = RefCell<Vec<(usize, TpmsAuthResponse)>>;

pub enum Kind {
    Password(PasswordSession),
    Scripted { auth: TpmsAuthCommand, verdict: Option<TssError> },
}
pub struct Sess<'a> {
    pub id: usize,
    pub kind: Kind,
    pub log: &'a Log,
    pub asked: RefCell<u32>,
    /// Reference encoding of the command authorization.
    pub bytes: Vec<u8>,
}
impl Session for Sess<'_> {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        *self.asked.borrow_mut() += 1;
        match &self.kind {
            Kind::Password(p) => p.get_auth_command(),
            Kind::Scripted { auth, .. } => *auth,
        }
    }
    fn validate_auth_response(&self, auth: &TpmsAuthResponse) -> TssResult<()> {
        self.log.borrow_mut().push((self.id, *auth));
        match &self.kind {
            Kind::Password(p) => p.validate_auth_response(auth),
            Kind::Scripted { verdict: None, .. } => Ok(()),
            Kind::Scripted { verdict: Some(e), .. } => Err(*e),
        }
    }
}
impl Sess<'_> {
    /// Whether it accepts the authorization; `Err(code)` or `Err(0)` for a code
    /// the statement leaves open.
    pub fn accepts(&self, a: &TpmsAuthResponse) -> Result<(), u32> {
        match &self.kind {
            Kind::Password(_) => {
                if a.nonce.get_size() == 0 && a.session_attributes.0 == 1 && a.hmac.get_size() == 0 { Ok(()) } else { Err(0) }
            }
            Kind::Scripted { verdict, .. } => match verdict {
                None => Ok(()),
                Some(e) => Err(e.get()),
            },
        }
    }
}
pub fn pw_bytes(pw: &[u8]) -> Vec<u8> {
    let mut o = vec![0x40, 0, 0, 9, 0, 0, 0];
    o.extend_from_slice(&(pw.len() as u16).to_be_bytes());
    o.extend_from_slice(pw);
    o
}
pub fn session<'a>(r: &mut Rng, id: usize, log: &'a Log, reject: bool) -> Sess<'a> {
    let asked = RefCell::new(0);
    if r.chance(1, 3) && !reject {
        let n = r.len_upto(64);
        let pw = r.bytes(n);
        let kind = Kind::Password(PasswordSession::new(&pw).expect("password of at most 64 bytes"));
        return Sess { id, kind, log, asked, bytes: pw_bytes(&pw) };
    }
    let mut bytes = vec![];
    let auth = TpmsAuthCommand::arb(r, &mut bytes);
    let verdict = if reject { TssError::try_from(r.u32() | 1).ok() } else { None };
    Sess { id, kind: Kind::Scripted { auth, verdict }, log, asked, bytes }
}

/// Runs a command with the given sessions as its authorization area.
pub fn run_area<C: TestCmd, T: Connection<Error: From<TssError>>>(
    cmd: &C,
    h: C::Handles,
    s: Vec<Sess>,
    tpm: &mut T,
) -> Result<(C::RespT, C::RespHandles), T::Error> {
    let mut i = s.into_iter();
    match (i.next(), i.next(), i.next()) {
        (None, ..) => run_command_with_handles(cmd, h, (), tpm),
        (Some(a), None, _) => run_command_with_handles(cmd, h, a, tpm),
        (Some(a), Some(b), None) => run_command_with_handles(cmd, h, (a, b), tpm),
        (Some(a), Some(b), Some(c)) => run_command_with_handles(cmd, h, (a, b, c), tpm),
    }
}

// ---- connection -----------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum CErr {
    Tss(u32),
    Conn(u64),
}
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for CErr {}
impl From<TssError> for CErr {
    fn from(e: TssError) -> Self {
        CErr::Tss(e.get())
    }
}

/// Records requests and delivers a scripted reply.
#[derive(Default)]
pub struct Script {
    pub sent: Vec<Vec<u8>>,
    pub rsp_len: Vec<usize>,
    pub reply: Option<Vec<u8>>,
    pub fail: Option<u64>,
    /// Contents of the response buffer beyond the delivered bytes.
    pub poison: u8,
}
impl Connection for Script {
    type Error = CErr;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], CErr> {
        self.sent.push(cmd.to_vec());
        self.rsp_len.push(rsp.len());
        if let Some(e) = self.fail {
            return Err(CErr::Conn(e));
        }
        rsp.fill(self.poison);
        let r = self.reply.as_deref().unwrap_or(&[]);
        let n = r.len().min(rsp.len());
        rsp[..n].copy_from_slice(&r[..n]);
        Ok(&mut rsp[..n])
    }
}
