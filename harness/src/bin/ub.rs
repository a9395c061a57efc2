//! C22: every public operation of the crates with as little code of the harness
//! around it as possible, for an interpreter that checks every memory access, and
//! with an allocator that counts, for leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::hint::black_box;
use std::sync::atomic::{AtomicIsize, Ordering};
use tpm2::errors::*;
use tpm2_client::connection::*;
use tpm2_client::sessions::*;
use tpm2_impl::platform::crypto::drbg_helpers;
use tpm2_impl::platform::crypto::{Drbg, DrbgError};
use tpm2_impl::platform::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::{TpmRcError as BaseRc, TssError as BaseTss};
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;
use tpmcheck::cmds::*;
use tpmcheck::containers::List;
use tpmcheck::shape::*;
use tpmcheck::srv::{self, RevRead, RevWrite};
use tpmcheck::types::*;
use tpmcheck::*;

struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

thread_local!(static SEEN: RefCell<Option<Vec<String>>> = const { RefCell::new(None) });
/// An observation: recorded when the transcripts of builds are compared.
fn see<T: std::fmt::Debug>(x: T) {
    SEEN.with(|l| {
        if let Some(v) = &mut *l.borrow_mut() {
            v.push(format!("{x:?}"));
        }
    });
    black_box(x);
}
fn bytes(b: &[u8]) {
    SEEN.with(|l| {
        if let Some(v) = &mut *l.borrow_mut() {
            // Constant runs are not spelled out.
            let mut s = format!("{}:", b.len());
            for c in b.chunk_by(|x, y| x == y) {
                s += &if c.len() < 5 { format!("{:02x}", c[0]).repeat(c.len()) } else { format!("({:02x}*{})", c[0], c.len()) };
            }
            v.push(s);
        }
    });
    black_box(b);
}

type Run = Box<dyn Fn(&mut Rng) + Sync>;
struct Op {
    name: String,
    run: Run,
}

/// Encodes into destinations of their own around the needed length.
fn destinations<T: std::fmt::Debug>(enc: &dyn Fn(&mut [u8]) -> T, len: usize, r: &mut Rng) {
    for d in [0, len.saturating_sub(1), len, len + 1 + r.below(9), r.below(len + 1)] {
        let mut b = vec![0x5Au8; d].into_boxed_slice();
        see(enc(&mut b));
        bytes(&b);
    }
}
fn inputs(good: &[u8], r: &mut Rng) -> Vec<Box<[u8]>> {
    let mut v = vec![good.to_vec()];
    v.push(good[..r.below(good.len() + 1)].to_vec());
    if !good.is_empty() {
        v.push(good[..good.len() - 1].to_vec());
        let mut b = good.to_vec();
        let i = r.below(b.len().min(8));
        b[i] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 2]);
        v.push(b);
    }
    let mut b = good.to_vec();
    b.extend_from_slice(&[0xFF; 3]);
    v.push(b);
    v.into_iter().map(|b| b.into_boxed_slice()).collect()
}

fn codec(t: &TypeInfo, r: &mut Rng) {
    let (v, enc) = (t.make)(r);
    destinations(&|d| v.encode(d), enc.len(), r);
    see(v.same(&*v));
    let mut all = inputs(&enc, r);
    if let Some((b, _)) = malformed(&t.shape, r) {
        all.push(b.into_boxed_slice());
    }
    for b in &all {
        let mut u = UnmarshalBuf::new(b);
        match (t.decode)(&mut u) {
            Ok(w) => {
                see(w.same(&*v));
                let mut d = vec![0u8; b.len()].into_boxed_slice();
                see(w.encode(&mut d));
                bytes(&d);
            }
            Err(e) => see(e),
        }
        see(u.len());
    }
    if let Some(o) = &t.variant {
        let sel = (o.disc)(&*v);
        let body = &enc[o.width.min(enc.len())..];
        destinations(&|d| (o.encode)(&*v, d), body.len(), r);
        let other = r.pick(t.shape.arms().unwrap()).0;
        for b in inputs(body, r) {
            for s in [sel, other, sel ^ (1 << r.below(8 * o.width))] {
                let mut u = UnmarshalBuf::new(&b);
                see((o.decode)(s, &mut u).map(|w| (o.disc)(&*w)));
                see(u.len());
            }
        }
    }
    if r.chance(1, 8) {
        see(v.dbg());
    }
}

fn buffer<T: Tpm2bSimple + AsRef<[u8]> + Marshalable + std::fmt::Debug + Default + PartialEq + Clone + 'static>(name: &str) -> Op {
    let run = |r: &mut Rng| {
        let cap = T::MAX_BUFFER_SIZE.min(65535);
        let old = T::default();
        for n in [0, 1, cap.saturating_sub(1), cap, cap + 1, r.below(cap + 1), 65536 + r.below(4)] {
            let b = r.bytes(n).into_boxed_slice();
            let v = match T::from_bytes(&b) {
                Ok(v) => v,
                Err(e) => {
                    see(e);
                    continue;
                }
            };
            see((v.get_size(), v.get_buffer().len(), v.as_ref().last().copied(), v == old, v.clone() == v));
            destinations(&|d| v.try_marshal(d), n + 2, r);
        }
    };
    Op { name: format!("buffer {name}"), run: Box::new(run) }
}
fn list<L: List>() -> Op {
    let run = |r: &mut Rng| {
        let mut o = vec![];
        let e = L::E::arb(r, &mut o);
        let mut l = L::default();
        for n in [L::MAX - 1, L::MAX, L::MAX + 1, 0, r.below(L::MAX + 1)] {
            if let Ok(x) = L::make(&vec![e.clone(); n]) {
                l = x;
            }
            see(l.items().last() == Some(&e));
            for _ in 0..2 {
                see(l.push(&e));
            }
            see((l.len(), l.items().len(), l == l.clone()));
        }
        let n = 4 + o.len() * l.len();
        destinations(&|d| l.try_marshal(d), n, r);
    };
    Op { name: format!("list {}", L::NAME), run: Box::new(run) }
}
fn structured<B>(name: &str) -> Op
where
    B: Tpm2bStruct + Tpm2bSimple + Marshalable + PartialEq + Clone + 'static,
    B::StructType: Wire,
{
    let run = |r: &mut Rng| {
        let mut enc = vec![];
        let s = <B::StructType as Wire>::arb(r, &mut enc);
        match B::from_struct(&s) {
            Ok(w) => {
                see(w.to_struct().map(|x| x == s));
                destinations(&|d| w.try_marshal(d), enc.len() + 2, r);
            }
            Err(e) => see(e),
        }
        for b in inputs(&enc, r) {
            see(B::from_bytes(&b).map(|w| w.to_struct().map(|x| x == s)));
        }
    };
    Op { name: format!("structured {name}"), run: Box::new(run) }
}

// ---- client ----------------------------------------------------------------------------

/// Hands over the reply in the buffer it was given, at its start or elsewhere.
struct Peer<'a> {
    reply: &'a [u8],
    at: usize,
    fail: bool,
}
impl Connection for Peer<'_> {
    type Error = CErr;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], CErr> {
        bytes(cmd);
        if self.fail {
            return Err(CErr::Conn(1));
        }
        let n = self.reply.len().min(rsp.len());
        let at = self.at.min(rsp.len() - n);
        rsp[at..at + n].copy_from_slice(&self.reply[..n]);
        Ok(&mut rsp[at..at + n])
    }
}
fn client<C: TestCmd + 'static>() -> Op {
    let run = |r: &mut Rng| {
        let n = r.below(4);
        let mut rh = vec![];
        C::RespHandles::arb(r, &mut rh);
        let k = if r.chance(1, 6) { 4120 } else { r.below(40) };
        let (_, rp) = C::sized_resp(r, k);
        let mut reply = vec![0x80, if n > 0 { 2 } else { 1 }, 0, 0, 0, 0, 0, 0, 0, 0];
        reply.extend_from_slice(&rh);
        if n > 0 {
            reply.extend_from_slice(&(rp.len() as u32).to_be_bytes());
        }
        reply.extend_from_slice(&rp);
        for _ in 0..n {
            reply.extend_from_slice(&[0, 0, 1, 0, 0]);
        }
        let l = reply.len() as u32;
        reply[2..6].copy_from_slice(&l.to_be_bytes());
        let mut all = inputs(&reply, r);
        let mut b = reply.clone();
        let cut = r.range(10.min(b.len()), b.len());
        b.truncate(cut);
        b[2..6].copy_from_slice(&(cut as u32).to_be_bytes());
        all.push(b.into_boxed_slice());
        // Declared sizes that are another number in fewer bits.
        for d in [0x8000_0000u32, 0xFFFF_0000, 0x0001_0000, u32::MAX] {
            let mut b = reply.clone();
            b[2..6].copy_from_slice(&(if d == u32::MAX { d } else { d + l }).to_be_bytes());
            all.push(b.into_boxed_slice());
        }
        all.push(Box::new([0x80, 1, 0, 0, 0, 10, 0, 0, 1, 1]));
        all.push(r.bytes(r.clone().below(40)).into_boxed_slice());
        for (i, b) in all.iter().enumerate() {
            let log: Log = RefCell::new(vec![]);
            let sess: Vec<Sess> = (0..n).map(|i| session(r, i, &log, false)).collect();
            let k = *r.pick(&[0usize, 20, 60, 4050, 4096]);
            let (cmd, _) = C::sized(r, if i < 4 { 20 } else { k });
            let mut ho = vec![];
            let h = C::Handles::arb(r, &mut ho);
            let at = if r.chance(1, 4) { 7 } else { 0 };
            let fail = r.chance(1, 12);
            let mut p = Peer { reply: b, at, fail };
            match run_area(&cmd, h, sess, &mut p) {
                Ok((a, h)) => {
                    let mut d = vec![0; 5000];
                    for x in [a.try_marshal(&mut d), h.try_marshal(&mut d)] {
                        bytes(&d[..*x.as_ref().unwrap_or(&0)]);
                        see(x);
                    }
                }
                Err(e) => see(e),
            }
        }
    };
    Op { name: format!("client {}", C::NAME), run: Box::new(run) }
}
fn passwords(r: &mut Rng) {
    for n in [0, 1, 63, 64, 65, 300, r.below(70)] {
        let b = r.bytes(n);
        if let Ok(p) = PasswordSession::new(&b) {
            see(p.get_auth_command().hmac.get_size());
            let mut o = vec![];
            let a = TpmsAuthResponse::arb(r, &mut o);
            see(p.validate_auth_response(&a).map_err(|e| e.get()));
        }
    }
}

// ---- server ----------------------------------------------------------------------------

fn server<const CUSTOM: bool>(r: &mut Rng) {
    let s = srv::shared(r.u64());
    s.lock().unwrap().fail_inst = r.chance(1, 12);
    s.lock().unwrap().fail_fill = vec![2];
    s.lock().unwrap().fail_reseed = vec![1, 2 + r.below(3) as u64];
    let mut reqs: Vec<(Vec<u8>, usize)> = (0..if rng::slow() { 6 } else { 14 })
        .map(|i| {
            let q = match i % 3 {
                0 => srv::get_random(r.below(50)),
                _ => {
                    let k = r.below(40);
                    srv::random_request(r, k).0
                }
            };
            let n = srv::rsp_len(r, &q);
            (q, if n > 300 && rng::slow() { 30 } else { n })
        })
        .collect();
    for d in [0x8000_000Cu32, 0xFFFF_000C, 0x0001_000C, u32::MAX] {
        let mut q = srv::get_random(5);
        q[2..6].copy_from_slice(&d.to_be_bytes());
        reqs.push((q, 30));
    }
    if CUSTOM {
        if let Ok(mut c) = srv::context::<srv::Custom<32, 16>>(&s) {
            for (b, n) in &reqs {
                s.lock().unwrap().needs = r.chance(1, 3);
                let x = RevRead::new(b);
                let mut w = Box::new(RevWrite(RevRead::new(&vec![0xEE; *n])));
                see(c.execute_command_separate(&x, &mut *w));
                see(&w.0);
                see(c.execute_command_in_place(&mut *w, b.len()));
                see(&w.0);
            }
        }
    } else if let Ok(mut c) = srv::context::<srv::Plain>(&s) {
        for (q, n) in &reqs {
            s.lock().unwrap().needs = r.chance(1, 3);
            let q = q.clone().into_boxed_slice();
            let mut b = vec![0xEE; *n].into_boxed_slice();
            see(c.execute_command_separate(&q[..], &mut b[..]));
            bytes(&b);
            let k = q.len().min(*n);
            b[..k].copy_from_slice(&q[..k]);
            let claimed = *r.pick(&[k, q.len(), usize::MAX]);
            see(c.execute_command_in_place(&mut b[..], claimed));
            bytes(&b);
        }
    }
}
fn platform_buffers(r: &mut Rng) {
    let n = r.below(24);
    let mut b = vec![1u8; n].into_boxed_slice();
    for _ in 0..12 {
        let at = *r.pick(&[0, 1, n, n + 1, usize::MAX, usize::MAX - 1, r.clone().below(n + 1)]);
        let k = *r.pick(&[0, 1, 2, n, n + 1, r.clone().below(n + 1)]);
        let mut o = vec![0; k];
        see(TpmReadBuffer::read_into(&b[..], at, &mut o));
        see(TpmWriteBuffer::write(&mut b[..], at, &o));
        see(TpmWriteBuffer::write_callback(&mut b[..], at, k, |x| x.fill(3)));
        see(TpmReadBuffer::len(&b[..]));
        bytes(&b);
        bytes(&o);
    }
}
struct Count(u64);
impl Drbg for Count {
    type Entropy = [u8; 4];
    type Nonce = [u8; 4];
    fn instantiate(_: &[u8; 4], _: &[u8; 4], _: &[u8]) -> Result<Self, DrbgError> {
        Ok(Count(1))
    }
    fn reseed(&mut self, _: &[u8; 4], _: &[u8]) -> Result<(), DrbgError> {
        Ok(())
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        self.0 += 1;
        if self.0 % 11 == 0 { Err(DrbgError) } else { Ok(self.0 as u32 ^ 0xFFFF_0000) }
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        self.0 += 1;
        if self.0 % 13 == 0 { Err(DrbgError) } else { Ok(!self.0) }
    }
    fn fill_bytes(&mut self, _: &[u8], d: &mut [u8]) -> Result<(), DrbgError> {
        self.0 += 1;
        d.iter_mut().enumerate().for_each(|(i, x)| *x = (self.0 as u8).wrapping_add((i as u8).wrapping_mul(37)));
        Ok(())
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}
fn helpers(r: &mut Rng) {
    let mut g = Count(r.below(20) as u64);
    for n in [0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, r.below(40), r.below(40)] {
        let mut d = vec![0; n].into_boxed_slice();
        see(drbg_helpers::fill_bytes_via_next(&mut g, &[1, 2], &mut d));
        bytes(&d);
        see(drbg_helpers::next_u64_via_u32(&mut g, &[]));
        see(drbg_helpers::next_u32_via_fill(&mut g, &d));
        see(drbg_helpers::next_u64_via_fill(&mut g, &d));
    }
}

// ---- core crate and numbers ---------------------------------------------------------------

#[derive(Clone, Copy)]
struct Lim(u8);
impl tpm2::Limits for Lim {
    fn supports_hash(self, h: tpm2::TpmiAlgHash) -> bool {
        self.0 >> (tpm2::Alg::from(h).0 % 8) & 1 == 1
    }
}
fn core_codecs(r: &mut Rng) {
    use tpm2::{Marshal, MarshalArray, Unmarshal, UnmarshalArray};
    let lim = Lim(r.u8() | if r.chance(1, 2) { 0xFF } else { 0 });
    fn both<'s, T: Marshal + Unmarshal<'s> + Clone>(lim: Lim, mut v: T, input: &'s [u8]) {
        let n = v.marshaled_size();
        see((n, T::marshaled_size_max(lim)));
        for d in [0, n.saturating_sub(1), n, n + 3] {
            let mut b = vec![0u8; d].into_boxed_slice();
            see(v.marshal(lim, &mut b).map(|x| x.len()));
            bytes(&b);
        }
        for k in [0, input.len() / 2, input.len().saturating_sub(1), input.len()] {
            see(v.unmarshal(lim, &input[..k]).map(|x| x.len()));
        }
        let mut b = vec![0u8; 80].into_boxed_slice();
        see(v.marshal(lim, &mut b).map(|x| x.len()));
        bytes(&b);
    }
    let b = r.bytes(12).into_boxed_slice();
    both(lim, r.u8(), &b[..1]);
    both(lim, r.u16(), &b[..2]);
    both(lim, r.u32(), &b[..4]);
    both(lim, r.u64(), &b[..8]);
    both(lim, r.u8() as i8, &b);
    both(lim, r.u16() as i16, &b);
    both(lim, r.u32() as i32, &b);
    both(lim, r.u64() as i64, &b);
    let mut a = [0; 4];
    r.u32().marshal_array(&mut a);
    bytes(&a);
    see(u32::unmarshal_array(&a));
    for id in [4u16, 0xB, 0xC, 0xD, 0x12, 0x27, 0x28, 0x29, 0, r.u16()] {
        let i = id.to_be_bytes();
        both(lim, tpm2::Alg(id), &i);
        if let Ok(h) = tpm2::TpmiAlgHash::try_from(tpm2::Alg(id)) {
            both(lim, h, &i);
            see(h.digest_size());
        }
        both(lim, tpm2::TpmiAlgHash::Sha1, &i);
        for n in [0, 19, 20, 31, 32, 48, 64, 65] {
            let mut x = i.to_vec();
            x.extend(r.bytes(n));
            let x = x.into_boxed_slice();
            let d = [7u8; 20];
            both(lim, tpm2::TpmtHa::Sha1(&d), &x);
        }
    }
}
fn numbers(r: &mut Rng) {
    for i in 0..24u32 {
        let v = match i % 4 {
            0 => r.u32(),
            1 => r.u32() & 0xFFF,
            2 => 0,
            _ => *r.pick(&[0x0100_0000, 0x01FF_FFFF, 0x0200_003F, 0x0300_0040, 0x4000_0009, u32::MAX]),
        };
        if let Ok(e) = TssError::try_from(v) {
            see((e.get(), e.to_string()));
        }
        if let Ok(e) = BaseTss::try_from(v) {
            see((e.get(), e.to_string()));
        }
        see(TpmiRhNvIndex::try_from(v).is_ok());
        see(TpmiShAuthSession::try_from(v).is_ok());
        let mut a = TpmaNv(v);
        for t in [TpmNt::Ordinary, TpmNt::PinPass, a.get_index_type()] {
            a.set_type(t);
            see((a.0, a.get_index_type().0));
        }
    }
    let pos = [ErrorPosition::Pos1, ErrorPosition::Pos7, ErrorPosition::Pos8, ErrorPosition::PosF];
    for k in [ErrorType::Handle, ErrorType::Parameter, ErrorType::Session] {
        for p in pos {
            for e in [TpmRcError::ValueFor(k, p), TpmRcError::SelectorFor(k, p), TpmRcError::SizeFor(k, p)] {
                see((e.get(), e.is_warning(), e.format1_parameter().is_some()));
            }
        }
    }
    see((BaseRc::Memory.get(), BaseRc::Size.is_warning(), BaseRc::Failure.format1_parameter().is_none()));
}
fn cursor(r: &mut Rng) {
    let b = r.bytes(r.clone().below(30)).into_boxed_slice();
    let mut u = UnmarshalBuf::new(&b);
    for _ in 0..12 {
        let k = *r.pick(&[0, 1, 2, 7, u.len(), u.len() + 1, usize::MAX]);
        see(u.get(k).map(|x| x.first().copied()));
        see((u.len(), u.is_empty()));
    }
}

// ---- transport -------------------------------------------------------------------------------

#[cfg(not(feature = "net"))]
fn transport(_: &mut Rng) {}
#[cfg(not(feature = "net"))]
fn std_errors(_: &mut Rng) {}

#[cfg(feature = "net")]
fn std_errors(r: &mut Rng) {
    for i in 0..24u32 {
        let v = if i % 2 == 0 { r.u32() } else { r.u32() & 0xFFF };
        if let Ok(e) = TssError::try_from(v) {
            see(std::io::Error::from(e).to_string());
        }
    }
}

#[cfg(feature = "net")]
fn transport(r: &mut Rng) {
    use std::io::{Read, Write};
    use tpmcheck::tcpsim::ports;
    let p = ports();
    p.drain();
    let Ok(mut t) = TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1))) else { return };
    let (Some(mut a), Some(mut b)) = (p.accept(0), p.accept(1)) else { return };
    // What the peer sends is decided in advance; whatever it is, nothing may break.
    let n = r.len_upto(60);
    let mut x = (n as u32).to_be_bytes().to_vec();
    x.extend(r.bytes(n));
    x.extend_from_slice(&[0, 0, 0, r.below(2) as u8]);
    let keep = r.range(0, x.len());
    if r.chance(1, 3) {
        x.truncate(keep);
    }
    let k = r.below(60);
    let y = if r.chance(1, 2) { vec![0; 40] } else { r.bytes(k) };
    let z = if r.chance(1, 2) { vec![0; 60] } else { r.bytes(k) };
    let _ = a.write_all(&[x, z].concat());
    let _ = b.write_all(&y);
    let _ = a.shutdown(std::net::Shutdown::Write);
    let _ = b.shutdown(std::net::Shutdown::Write);
    let cmd = r.bytes(20);
    let mut rsp = vec![0; r.below(70)].into_boxed_slice();
    t.set_locality(r.u8());
    let _ = black_box(t.transact(&cmd, &mut rsp).map(|x| x.len()));
    let _ = black_box(t.platform_signal(SimulatorPlatformSignal::NvOn));
    let _ = black_box(t.get_command_response_sizes().map(|x| x.largest_command_size()));
    let _ = black_box(t.act_get_signaled(3));
    let _ = black_box(t.remote_handshake(1).map(|x| x.endpoint_info()));
    let _ = black_box(t.hcrtm_sequence(&cmd));
    let _ = black_box(t.reinit());
    let _ = black_box(t.set_firmware_svn(4));
    let _ = black_box(t.set_alternative_result(4));
    let _ = black_box(t.session_end());
    let _ = black_box(t.stop_simulator());
    drop(t);
    let mut sink = vec![];
    let _ = a.read_to_end(&mut sink);
    let _ = b.read_to_end(&mut sink);
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    #[allow(unused_mut)]
    let mut all = types::all();
    #[cfg(feature = "derived")]
    {
        all.extend(derived::all());
        all.extend(derived::values_only());
    }
    for t in all {
        v.push(Op { name: format!("codec {}", t.name), run: Box::new(move |r| codec(&t, r)) });
    }
    macro_rules! each {
        ($f:ident: $($t:ty),* $(,)?) => {$( v.push($f::<$t>(stringify!($t))); )*};
    }
    each!(buffer: Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
        Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
        Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
        Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData);
    each!(structured: Tpm2bPublic, Tpm2bCreationData, Tpm2bSensitiveCreate);
    macro_rules! plain {
        ($f:ident: $($t:ty),* $(,)?) => {$( v.push($f::<$t>()); )*};
    }
    plain!(list: TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedTpmProperty, TpmlTaggedPcrProperty, TpmlEccCurve,
        TpmlTaggedPolicy, TpmlDigest);
    plain!(client: GetCapabilityCmd, PcrReadCmd, GetRandomCmd, StartupCmd, WideCmd, BareCmd, NilCmd, RichCmd, IntCmd);
    let named: [(&str, fn(&mut Rng)); 10] = [
        ("passwords", passwords),
        ("server on slices", server::<false>),
        ("server on other buffers", server::<true>),
        ("platform buffers", platform_buffers),
        ("generator helpers", helpers),
        ("core codecs", core_codecs),
        ("numbers", numbers),
        ("cursor", cursor),
        ("std errors", std_errors),
        ("transport", transport),
    ];
    for (n, f) in named {
        if !(rng::slow() && n == "transport") {
            v.push(Op { name: n.into(), run: Box::new(f) });
        }
    }
    v
}

/// C27: what a build of the crates was seen to do, one line per case, in the file
/// VERIF_TRACE. The runner compares the files of different builds.
fn transcript(mut ctx: Ctx, ops: Vec<Op>) {
    let n = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let (rounds, from) = (n("VERIF_ROUNDS", 2), n("VERIF_FROM", 0));
    let lines = std::sync::Mutex::new(vec![]);
    let one = std::env::args().nth(5).is_some();
    ctx.section("operations", ops.len() as u64 * rounds, |c| {
        let o = &ops[c.index as usize % ops.len()];
        if o.name == "transport" || c.index < from * ops.len() as u64 {
            return;
        }
        let mut r = c.rng.clone();
        SEEN.with(|l| *l.borrow_mut() = Some(vec![]));
        let end = call(|| (o.run)(&mut r)).is_ok();
        let mut seen = SEEN.with(|l| l.borrow_mut().take()).unwrap_or_default();
        if !end {
            seen.push("panic".into());
        }
        c.eval();
        c.distinct(&[&c.index.to_be_bytes(), o.name.as_bytes()].concat());
        c.note(&format!("transcript:{}", o.name.split(' ').next().unwrap()));
        c.note_n("observations", seen.len() as u64);
        let h = seen.iter().fold(0, |h, x| rng::mix(h ^ x.bytes().fold(x.len() as u64, |h, b| (h.rotate_left(9) ^ b as u64).wrapping_mul(0x1000_0000_01b3))));
        if one {
            seen.iter().enumerate().for_each(|(i, x)| println!("SEEN {i} {x}"));
        }
        lines.lock().unwrap().push(format!("{}\t{}\t{}\t{h:016x}", c.index, o.name, seen.len()));
    });
    if let Ok(f) = std::env::var("VERIF_TRACE") {
        std::fs::write(f, lines.into_inner().unwrap().join("\n")).expect("trace file");
    }
    ctx.finish()
}

fn main() {
    let mut ctx = Ctx::from_args();
    let ops = ops();
    if ctx.prop == "C27" {
        return transcript(ctx, ops);
    }
    let rounds = ctx.n(if std::env::var("VERIF_ROUNDS").is_ok() { 12 } else { 3 }, 1500, 40_000);
    ctx.section("operations", ops.len() as u64 * rounds, |c| {
        let o = &ops[c.index as usize % ops.len()];
        let mut r = c.rng.clone();
        // A panic is another property's business unless it is an overflow or an
        // attempt to leave an object; the runner looks at the message.
        match call(|| (o.run)(&mut r)) {
            Ok(()) => c.note(&format!("run:{}", o.name.split(' ').next().unwrap())),
            Err(m) => c.fail("panic", format!("{}: {m}", o.name)),
        }
        c.eval();
        c.distinct(&[&c.index.to_be_bytes(), o.name.as_bytes()].concat());
        c.sample(|| o.name.clone());
    });
    if !cfg!(miri) {
        let rounds = ctx.n(1, 10, 200);
        ctx.section_threads("leaks", ops.len() as u64 * rounds, 1, |c| {
            let o = &ops[c.index as usize % ops.len()];
            let r = c.rng.clone();
            c.eval();
            // The same operation again and again: what it allocates it frees.
            let mut grown = 0;
            let mut last = isize::MAX;
            let mut more_files = 0;
            let mut files = usize::MAX;
            for i in 0..10 {
                let mut r = r.clone();
                let _ = call(|| (o.run)(&mut r));
                let open = std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
                more_files += (i > 1 && open > files) as u32;
                files = open;
                let now = LIVE.load(Ordering::Relaxed);
                if i > 1 && now <= last && more_files < i - 1 {
                    break;
                }
                grown += (i > 1 && now > last) as u32;
                last = now;
            }
            c.note("balanced-operations");
            if more_files == 8 {
                c.fail("leak", format!("{}: open files grow with every call", o.name));
            } else if grown == 8 {
                c.fail("leak", format!("{}: memory grows with every call", o.name));
            }
        });
        ctx.require("balanced-operations", 100);
    }
    ctx.rule = "Every public operation of the crates on generated, truncated and corrupted inputs held in allocations of exactly their length.".into();
    for k in ["run:codec", "run:buffer", "run:list", "run:structured", "run:client", "run:server"] {
        ctx.require(k, 10);
    }
    ctx.finish()
}
