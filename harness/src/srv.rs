//! A platform for the server under test whose entropy source and DRBG record
//! every call, can be told to fail, and produce output that is a function of the
//! seeds and of the calls made.
use crate::rng::{Rng, hash_bytes, mix};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource};
use tpm2_impl::platform::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    EntropyOpened,
    /// Bytes handed out.
    Entropy(Vec<u8>),
    Instantiate { ent: Vec<u8>, nonce: Vec<u8>, ok: bool },
    Reseed { ent: Vec<u8>, ok: bool },
    Asked(bool),
    /// Bytes generated (also of a call that failed half-way).
    Fill { out: Vec<u8>, ok: bool },
    Int,
}

#[derive(Default, Debug)]
pub struct Inner {
    pub seed: u64,
    pub drawn: u64,
    pub events: Vec<Ev>,
    /// The DRBG wants to be reseeded.
    pub needs: bool,
    /// It wants that before every generate call.
    pub always: bool,
    pub fail_inst: bool,
    pub fail_reseed: Vec<u64>,
    pub fail_fill: Vec<u64>,
    pub reseeds: u64,
    pub fills: u64,
    /// Called between entropy draws and so on, to disturb schedules.
    pub jitter: Option<Rng>,
}
pub type Shared = Arc<Mutex<Inner>>;

thread_local!(static PLAN: RefCell<Option<Shared>> = const { RefCell::new(None) });

pub fn shared(seed: u64) -> Shared {
    Arc::new(Mutex::new(Inner { seed, ..Default::default() }))
}
/// Makes a context whose platform is `s`.
pub fn context<D: TpmContextDeps>(s: &Shared) -> Result<tpm2_impl::TpmContext<D>, tpm2_impl::ServerError> {
    PLAN.with(|p| *p.borrow_mut() = Some(s.clone()));
    let r = tpm2_impl::TpmContext::<D>::new();
    PLAN.with(|p| *p.borrow_mut() = None);
    r
}
fn plan() -> Shared {
    PLAN.with(|p| p.borrow().clone()).expect("harness: platform used outside of context creation")
}
fn disturb(s: &Shared) {
    let k = match &mut s.lock().unwrap().jitter {
        None => return,
        Some(r) => r.below(8),
    };
    match k {
        0 => std::thread::yield_now(),
        1 => (0..200).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

/// Byte `i` of the entropy stream.
pub fn entropy_byte(seed: u64, i: u64) -> u8 {
    (mix(seed ^ mix(i)) >> 24) as u8
}

pub struct Source(Shared);
impl EntropySource for Source {
    fn instantiate() -> Self {
        let s = plan();
        s.lock().unwrap().events.push(Ev::EntropyOpened);
        Source(s)
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        disturb(&self.0);
        let mut g = self.0.lock().unwrap();
        for x in dest.iter_mut() {
            *x = entropy_byte(g.seed, g.drawn);
            g.drawn += 1;
        }
        g.events.push(Ev::Entropy(dest.to_vec()));
    }
}

pub struct Seed<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Seed<N> {
    fn default() -> Self {
        Seed([0; N])
    }
}
impl<const N: usize> AsMut<[u8]> for Seed<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

pub fn seed_state(ent: &[u8], nonce: &[u8]) -> u64 {
    hash_bytes(ent) ^ mix(hash_bytes(nonce))
}
pub fn reseed_state(st: u64, ent: &[u8]) -> u64 {
    mix(st) ^ hash_bytes(ent)
}
/// The `i`th byte generated from the state by call number `call`.
pub fn out_byte(st: u64, call: u64, i: u64) -> u8 {
    (mix(st ^ mix(call.wrapping_mul(0x9E37)) ^ i) >> 32) as u8
}

pub struct Gen<const E: usize, const N: usize> {
    s: Shared,
    state: u64,
}
impl<const E: usize, const N: usize> Drbg for Gen<E, N> {
    type Entropy = Seed<E>;
    type Nonce = Seed<N>;
    fn instantiate(e: &Seed<E>, n: &Seed<N>, _p: &[u8]) -> Result<Self, DrbgError> {
        let s = plan();
        {
            let mut g = s.lock().unwrap();
            let ok = !g.fail_inst;
            g.events.push(Ev::Instantiate { ent: e.0.to_vec(), nonce: n.0.to_vec(), ok });
            if !ok {
                return Err(DrbgError);
            }
        }
        Ok(Gen { state: seed_state(&e.0, &n.0), s })
    }
    fn reseed(&mut self, e: &Seed<E>, _a: &[u8]) -> Result<(), DrbgError> {
        disturb(&self.s);
        let mut g = self.s.lock().unwrap();
        let ok = !g.fail_reseed.contains(&g.reseeds);
        g.reseeds += 1;
        g.events.push(Ev::Reseed { ent: e.0.to_vec(), ok });
        if !ok {
            return Err(DrbgError);
        }
        g.needs = false;
        self.state = reseed_state(self.state, &e.0);
        Ok(())
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        self.s.lock().unwrap().events.push(Ev::Int);
        crypto::drbg_helpers::next_u32_via_fill(self, a)
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        self.s.lock().unwrap().events.push(Ev::Int);
        crypto::drbg_helpers::next_u64_via_fill(self, a)
    }
    fn fill_bytes(&mut self, _a: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        disturb(&self.s);
        let mut g = self.s.lock().unwrap();
        let call = g.fills;
        g.fills += 1;
        let ok = !g.fail_fill.contains(&call) && !g.needs;
        let n = if ok { dest.len() } else { dest.len() / 2 };
        for (i, x) in dest[..n].iter_mut().enumerate() {
            *x = out_byte(self.state, call, i as u64);
        }
        g.events.push(Ev::Fill { out: dest[..n].to_vec(), ok });
        if ok { Ok(()) } else { Err(DrbgError) }
    }
    fn requires_reseeding(&mut self) -> bool {
        let mut g = self.s.lock().unwrap();
        let n = g.needs || g.always;
        g.events.push(Ev::Asked(n));
        n
    }
}

/// Plain slices.
pub struct Slices<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> TpmContextDeps for Slices<E, N> {
    type Drbg = Gen<E, N>;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}
pub type Plain = Slices<32, 16>;

/// Platform buffers that are not slices: they keep their bytes in reverse, and
/// only offer the required operations.
pub struct Custom<const E: usize, const N: usize>(PhantomData<()>);
impl<const E: usize, const N: usize> TpmContextDeps for Custom<E, N> {
    type Drbg = Gen<E, N>;
    type EntropySource = Source;
    type Request = RevRead;
    type Response = RevWrite;
}

#[derive(Debug)]
pub struct RevRead {
    rev: Vec<u8>,
}
impl RevRead {
    pub fn new(b: &[u8]) -> Self {
        RevRead { rev: b.iter().rev().copied().collect() }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.rev.iter().rev().copied().collect()
    }
    fn get(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        let n = self.rev.len();
        let end = at.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
        if end > n {
            return Err(ReadOutOfBounds);
        }
        for (i, x) in out.iter_mut().enumerate() {
            *x = self.rev[n - 1 - at - i];
        }
        Ok(())
    }
}
impl TpmReadBuffer for RevRead {
    fn len(&self) -> usize {
        self.rev.len()
    }
    fn read_into(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        self.get(at, out)
    }
}
pub struct RevWrite(pub RevRead);
impl TpmReadBuffer for RevWrite {
    fn len(&self) -> usize {
        self.0.rev.len()
    }
    fn read_into(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        self.0.get(at, out)
    }
}
impl TpmWriteBuffer for RevWrite {
    fn write(&mut self, at: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
        let n = self.0.rev.len();
        let end = at.checked_add(data.len()).ok_or(WriteOutOfBounds)?;
        if end > n {
            return Err(WriteOutOfBounds);
        }
        for (i, x) in data.iter().enumerate() {
            self.0.rev[n - 1 - at - i] = *x;
        }
        Ok(())
    }
    fn write_callback(&mut self, at: usize, size: usize, f: impl FnOnce(&mut [u8])) -> Result<(), WriteOutOfBounds> {
        let end = at.checked_add(size).ok_or(WriteOutOfBounds)?;
        if end > self.0.rev.len() {
            return Err(WriteOutOfBounds);
        }
        let mut t = vec![0; size];
        self.0.get(at, &mut t).expect("harness: in range");
        f(&mut t);
        self.write(at, &t)
    }
}

/// What the statement prescribes for a request.
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    /// This response code.
    Code(u32),
    /// Success with so many bytes.
    Random(usize),
    /// Success with so many bytes, or an error response.
    Maybe(usize),
    /// Any complete response.
    Any,
    /// The buffer cannot hold a response.
    Nothing,
}
pub const COMMAND_SIZE: u32 = 0x142;
pub const COMMAND_CODE: u32 = 0x143;
pub const MEMORY: u32 = 0x904;

pub fn answer(req: &[u8], rsp_len: usize) -> Answer {
    if rsp_len < 10 {
        return Answer::Nothing;
    }
    let n = req.len();
    let size = |at: usize| u32::from_be_bytes(req[at..at + 4].try_into().unwrap());
    if n < 10 || size(2) as usize != n {
        return Answer::Code(COMMAND_SIZE);
    }
    if size(6) != 0x17B {
        return Answer::Code(COMMAND_CODE);
    }
    if n < 12 {
        return Answer::Code(COMMAND_SIZE);
    }
    // With another tag the parameters need not follow the header.
    if req[..2] != [0x80, 1] {
        return Answer::Any;
    }
    let k = u16::from_be_bytes([req[10], req[11]]) as usize;
    match (10 + k > rsp_len, n > 12) {
        (true, false) => Answer::Code(MEMORY),
        (true, true) => Answer::Any,
        (false, false) => Answer::Random(k),
        (false, true) => Answer::Maybe(k),
    }
}
/// A request and how it was made.
pub fn request(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(65536),
        3 => 65535,
        _ => r.below(120),
    };
    random_request(r, k)
}
pub fn get_random(k: usize) -> Vec<u8> {
    let mut b = vec![0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7B];
    b.extend_from_slice(&(k as u16).to_be_bytes());
    b
}
fn fix(b: &mut [u8]) {
    if b.len() >= 6 {
        let n = b.len() as u32;
        b[2..6].copy_from_slice(&n.to_be_bytes());
    }
}
pub fn random_request(r: &mut Rng, k: usize) -> (Vec<u8>, &'static str) {
    let mut b = get_random(k);
    match r.below(16) {
        0..=5 => (b, "request:get-random"),
        6 => {
            let n = r.below(12);
            b.truncate(n);
            if r.chance(1, 2) {
                fix(&mut b);
            }
            (b, "request:truncated")
        }
        7 => {
            let s = match r.below(6) {
                0 => 11,
                1 => 13,
                2 => 0,
                3 => u32::MAX,
                4 => 0x0001_000C,
                _ => r.u32(),
            };
            b[2..6].copy_from_slice(&s.to_be_bytes());
            (b, "request:size-field")
        }
        8 | 9 => {
            let c = match r.below(5) {
                0 => 0x17B ^ (1 << r.below(32)),
                1 => 0x11F + r.below(0x80) as u32,
                2 => 0,
                3 => 0x0001_017B,
                _ => r.u32(),
            };
            b[6..10].copy_from_slice(&c.to_be_bytes());
            if r.chance(1, 2) {
                let n = if r.chance(1, 30) { r.below(9000) } else { r.below(80) };
                b.truncate(10);
                b.extend(r.bytes(n));
                fix(&mut b);
            }
            (b, "request:other-command")
        }
        10 => {
            let t = if r.chance(1, 2) { 0x8002 } else { r.u16() };
            b[..2].copy_from_slice(&t.to_be_bytes());
            (b, "request:tag")
        }
        11 => {
            let n = r.range(1, 60);
            b.extend(r.bytes(n));
            if r.chance(1, 2) {
                fix(&mut b);
            }
            (b, "request:trailing")
        }
        12 => {
            let n = r.below(40);
            (r.bytes(n), "request:random")
        }
        13 => {
            let n = if r.chance(1, 20) { r.below(70_000) } else { r.below(300) };
            let mut b = vec![*r.pick(&[0u8, 0xFF, 0x80, 1]); n];
            if r.chance(1, 2) {
                fix(&mut b);
            }
            (b, "request:constant")
        }
        14 => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            (b, "request:bit-flip")
        }
        _ => {
            let n = r.below(14);
            let mut b = r.bytes(n);
            if n >= 2 {
                b[..2].copy_from_slice(&[0x80, 1]);
            }
            fix(&mut b);
            (b, "request:short")
        }
    }
}
pub fn rsp_len(r: &mut Rng, req: &[u8]) -> usize {
    let k = if req.len() >= 12 { 10 + u16::from_be_bytes([req[10], req[11]]) as usize } else { 10 };
    match r.below(10) {
        0 => r.below(11),
        1 => 9,
        2 => 10,
        3 | 4 => k,
        5 => k - 1,
        6 => k + 1,
        7 => r.range(10, 80),
        8 => 4096,
        _ => k + r.below(400),
    }
}
