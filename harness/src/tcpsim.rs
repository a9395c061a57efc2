//! A stand-in for the TCG simulator: a script per port says what to answer once
//! so many bytes have arrived, how the answer is cut up, and whether the stream
//! ends. Everything that arrives is recorded. When the script is over, the
//! stand-in closes its direction, so code that waits for more gets the end of
//! the stream.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Then {
    Go,
    /// Close the sending direction.
    End,
    /// Reset the connection.
    Reset,
}
#[derive(Clone, Debug)]
pub struct Step {
    /// Bytes that have arrived on the port in all before the answer is due.
    pub need: usize,
    pub reply: Vec<u8>,
    /// Sizes of the pieces; the last one takes the rest.
    pub cuts: Vec<usize>,
    /// Microseconds before the answer and between the pieces.
    pub wait: u64,
    pub then: Then,
}
#[derive(Default, Debug)]
pub struct Seen {
    pub bytes: [Vec<u8>; 2],
    /// Bytes beyond the request that arrived before its answer was sent.
    pub early: [Option<usize>; 2],
    /// Nothing moved any more and nothing could.
    pub stalled: bool,
    pub answered: [usize; 2],
}

pub struct Ports {
    pub l: [TcpListener; 2],
}
impl Ports {
    pub fn new() -> Ports {
        let b = || TcpListener::bind("127.0.0.1:0").expect("harness: listen on the loopback interface");
        let p = Ports { l: [b(), b()] };
        for x in &p.l {
            x.set_nonblocking(true).expect("harness: nonblocking");
        }
        p
    }
    pub fn port(&self, i: usize) -> u16 {
        self.l[i].local_addr().unwrap().port()
    }
    pub fn drain(&self) {
        for x in &self.l {
            while x.accept().is_ok() {}
        }
    }
    /// The connection made to port `i`, if there is one.
    pub fn accept(&self, i: usize) -> Option<TcpStream> {
        // A connection that was made is in the backlog already.
        for _ in 0..200 {
            match self.l[i].accept() {
                Ok((s, _)) => {
                    s.set_nonblocking(false).ok();
                    s.set_nodelay(true).ok();
                    s.set_write_timeout(Some(Duration::from_secs(10))).ok();
                    return Some(s);
                }
                Err(_) => std::thread::sleep(Duration::from_millis(5)),
            }
        }
        None
    }
}
thread_local!(static PORTS: RefCell<Option<std::rc::Rc<Ports>>> = const { RefCell::new(None) });
/// The listeners of this thread.
pub fn ports() -> std::rc::Rc<Ports> {
    PORTS.with(|p| p.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(Ports::new())).clone())
}

pub fn gettid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
/// (state, cpu ticks) of a thread of this process.
fn thread_state(tid: u64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

pub fn reset(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

pub fn pause(us: u64) {
    match us {
        0 => {}
        1 => std::thread::yield_now(),
        n => std::thread::sleep(Duration::from_micros(n)),
    }
}

/// Plays the scripts until the client has closed both connections. `client` is
/// the thread that uses the connection.
pub fn play(streams: [Option<TcpStream>; 2], scripts: [Vec<Step>; 2], client: u64) -> Seen {
    let mut seen = Seen::default();
    let mut st = streams;
    let mut todo: [VecDeque<Step>; 2] = scripts.map(|s| s.into());
    let mut ended = [false; 2];
    let mut idle: Option<(u64, Instant, u32)> = None;
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let mut progressed = false;
        for p in 0..2 {
            if st[p].is_none() {
                continue;
            }
            while todo[p].front().is_some_and(|f| seen.bytes[p].len() >= f.need) {
                let f = todo[p].pop_front().unwrap();
                progressed = true;
                pause(f.wait);
                // Whatever else came before the answer.
                let s = st[p].as_mut().unwrap();
                s.set_nonblocking(true).ok();
                while let Ok(n) = s.read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                    seen.bytes[p].extend_from_slice(&buf[..n]);
                }
                s.set_nonblocking(false).ok();
                if seen.bytes[p].len() > f.need && seen.early[p].is_none() {
                    seen.early[p] = Some(f.need);
                }
                let mut rest = &f.reply[..];
                let mut cuts = f.cuts.iter();
                while !rest.is_empty() {
                    let n = cuts.next().copied().unwrap_or(rest.len()).clamp(1, rest.len());
                    if s.write_all(&rest[..n]).is_err() {
                        break;
                    }
                    rest = &rest[n..];
                    if !rest.is_empty() {
                        pause(f.wait);
                    }
                }
                seen.answered[p] += 1;
                match f.then {
                    Then::Go => {}
                    Then::End => {
                        todo[p].clear();
                    }
                    Then::Reset => {
                        reset(s);
                        st[p] = None;
                        todo[p].clear();
                        break;
                    }
                }
            }
            if todo[p].is_empty() && !ended[p] {
                if let Some(s) = &st[p] {
                    s.shutdown(Shutdown::Write).ok();
                }
                ended[p] = true;
            }
        }
        if st.iter().all(|s| s.is_none()) {
            return seen;
        }
        let mut fds: Vec<libc::pollfd> = st
            .iter()
            .map(|s| libc::pollfd { fd: s.as_ref().map_or(-1, |s| s.as_raw_fd()), events: libc::POLLIN, revents: 0 })
            .collect();
        let r = unsafe { libc::poll(fds.as_mut_ptr(), 2, if progressed { 0 } else { 250 }) };
        if progressed {
            idle = None;
        }
        if r <= 0 && !progressed {
            // Asleep without using the processor, and nothing is under way.
            match (thread_state(client), &mut idle) {
                (Some(('S', cpu)), Some((c, t, n))) if *c == cpu => {
                    *n += 1;
                    if *n >= 16 && t.elapsed() > Duration::from_secs(4) {
                        seen.stalled = true;
                        for s in st.iter_mut().flatten() {
                            s.shutdown(Shutdown::Both).ok();
                        }
                        return seen;
                    }
                }
                (Some(('S', cpu)), i) => *i = Some((cpu, Instant::now(), 0)),
                (_, i) => *i = None,
            }
            continue;
        }
        if r > 0 {
            idle = None;
        }
        for p in 0..2 {
            if fds[p].revents == 0 {
                continue;
            }
            let s = st[p].as_mut().unwrap();
            match s.read(&mut buf) {
                Ok(0) => {
                    st[p] = None;
                    todo[p].clear();
                }
                Ok(n) => seen.bytes[p].extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    st[p] = None;
                    todo[p].clear();
                }
            }
        }
    }
}

/// How an answer of `n` bytes is cut into pieces.
pub fn cuts(r: &mut Rng, n: usize) -> (Vec<usize>, u64, &'static str) {
    let wait = *r.pick(&[0u64, 0, 0, 1, 1, 60, 250]);
    match r.below(6) {
        0 | 1 => (vec![], wait, "cut:whole"),
        2 if n <= 60 => (vec![1; n], wait.min(60), "cut:single-bytes"),
        3 => (vec![r.range(1, 4), r.range(1, n.max(1))], wait, "cut:in-length"),
        4 => (vec![n.saturating_sub(r.range(1, 6))], wait, "cut:before-end"),
        _ => ((0..r.range(1, 6)).map(|_| r.range(1, n.max(1))).collect(), wait, "cut:random"),
    }
}

// ---- operations ---------------------------------------------------------------------

use tpm2_client::connection::*;

pub const TPM: usize = 0;
pub const PLAT: usize = 1;

/// One request and its answer.
#[derive(Clone, Debug)]
pub struct Exchange {
    pub port: usize,
    pub send: Vec<u8>,
    pub reply: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Locality(u8),
    Transact { cmd: Vec<u8>, rsp: Vec<u8>, room: usize },
    Signal(SimulatorPlatformSignal),
    Reinit,
    Hcrtm(Vec<u8>),
    Handshake(u32, u32, u32),
    AltResult(u32),
    FailureMode,
    Sizes([u32; 4]),
    Act(u32, u32),
    FwHash(u32),
    FwSvn(u32),
    SessionEnd,
    Stop,
}
pub const SIGNALS: [(SimulatorPlatformSignal, u32); 12] = [
    (SimulatorPlatformSignal::PowerOn, 1),
    (SimulatorPlatformSignal::PowerOff, 2),
    (SimulatorPlatformSignal::PhysicalPresenceOn, 3),
    (SimulatorPlatformSignal::PhysicalPresenceOff, 4),
    (SimulatorPlatformSignal::CancelOn, 9),
    (SimulatorPlatformSignal::CancelOff, 10),
    (SimulatorPlatformSignal::NvOn, 11),
    (SimulatorPlatformSignal::NvOff, 12),
    (SimulatorPlatformSignal::KeyCacheOn, 13),
    (SimulatorPlatformSignal::KeyCacheOff, 14),
    (SimulatorPlatformSignal::Reset, 17),
    (SimulatorPlatformSignal::Restart, 18),
];
fn be(x: u32) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
fn ex(port: usize, send: Vec<u8>, reply: Vec<u8>) -> Exchange {
    Exchange { port, send, reply }
}
pub fn frame(locality: u8, cmd: &[u8]) -> Vec<u8> {
    [&be(8)[..], &[locality], &be(cmd.len() as u32), cmd].concat()
}
impl Op {
    /// What the protocol prescribes.
    pub fn exchanges(&self, locality: u8) -> Vec<Exchange> {
        let ok = be(0);
        match self {
            Op::Locality(_) => vec![],
            Op::Transact { cmd, rsp, .. } => {
                vec![ex(TPM, frame(locality, cmd), [&be(rsp.len() as u32)[..], rsp, &ok].concat())]
            }
            Op::Signal(s) => vec![ex(PLAT, be(SIGNALS.iter().find(|x| x.0 == *s).unwrap().1), ok)],
            Op::Reinit => [12, 2, 1, 11].iter().map(|s| ex(PLAT, be(*s), ok.clone())).collect(),
            Op::Hcrtm(d) => vec![
                ex(TPM, be(5), ok.clone()),
                ex(TPM, [&be(6)[..], &be(d.len() as u32), d].concat(), ok.clone()),
                ex(TPM, be(7), ok),
            ],
            Op::Handshake(v, a, b) => vec![ex(TPM, [be(15), be(*v)].concat(), [be(*a), be(*b), ok].concat())],
            Op::AltResult(v) => vec![ex(TPM, [be(16), be(*v)].concat(), ok)],
            Op::FailureMode => vec![ex(PLAT, be(30), ok)],
            Op::Sizes(v) => vec![ex(
                PLAT,
                be(25),
                [be(16), v[0].to_ne_bytes().to_vec(), be(v[1]), v[2].to_ne_bytes().to_vec(), be(v[3]), ok].concat(),
            )],
            Op::Act(h, s) => vec![ex(PLAT, [be(26), be(*h)].concat(), [be(*s), ok].concat())],
            Op::FwHash(h) => vec![ex(PLAT, [be(35), be(*h)].concat(), ok)],
            Op::FwSvn(h) => vec![ex(PLAT, [be(36), be(*h)].concat(), ok)],
            Op::SessionEnd => vec![ex(TPM, be(20), vec![]), ex(PLAT, be(20), vec![])],
            Op::Stop => vec![ex(TPM, be(21), vec![]), ex(PLAT, be(21), vec![])],
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Locality(_) => "op:locality",
            Op::Transact { .. } => "op:transact",
            Op::Signal(_) => "op:signal",
            Op::Reinit => "op:reinit",
            Op::Hcrtm(_) => "op:hash-sequence",
            Op::Handshake(..) => "op:handshake",
            Op::AltResult(_) => "op:alternative-result",
            Op::FailureMode => "op:failure-mode",
            Op::Sizes(_) => "op:sizes",
            Op::Act(..) => "op:act",
            Op::FwHash(_) => "op:firmware-hash",
            Op::FwSvn(_) => "op:firmware-svn",
            Op::SessionEnd => "op:session-end",
            Op::Stop => "op:stop",
        }
    }
    /// Performs the operation; `Ok(true)` if it succeeded with the values the
    /// simulator sent, `Ok(false)` with a description of what was wrong.
    pub fn run(&self, c: &mut TcpConnection, canary: u8) -> Result<Result<(), String>, std::io::Error> {
        let same = |a: &[u32], b: &[u32]| if a == b { Ok(()) } else { Err(format!("returned {a:x?} instead of {b:x?}")) };
        match self {
            Op::Locality(l) => c.set_locality(*l),
            Op::Transact { cmd, rsp, room } => {
                let mut b = vec![canary; *room + 16];
                let p = b.as_ptr();
                let got = c.transact(cmd, &mut b[..*room])?;
                let (n, at) = (got.len(), got.as_ptr());
                if got != &rsp[..] {
                    return Ok(Err(format!("returned {} instead of {}", crate::hex(got), crate::hex(rsp))));
                }
                if n > 0 && at != p {
                    return Ok(Err("the response is not at the start of the buffer".into()));
                }
                if b[n..].iter().any(|x| *x != canary) {
                    return Ok(Err(format!("bytes beyond the response of {n} were written")));
                }
            }
            Op::Signal(s) => c.platform_signal(*s)?,
            Op::Reinit => c.reinit()?,
            Op::Hcrtm(d) => c.hcrtm_sequence(d)?,
            Op::Handshake(v, a, b) => {
                let r = c.remote_handshake(*v)?;
                return Ok(same(&[r.server_version(), r.endpoint_info()], &[*a, *b]));
            }
            Op::AltResult(v) => c.set_alternative_result(*v)?,
            Op::FailureMode => c.test_failure_mode()?,
            Op::Sizes(v) => {
                let r = c.get_command_response_sizes()?;
                return Ok(same(
                    &[r.largest_command_size(), r.largest_command(), r.largest_response_size(), r.largest_response()],
                    v,
                ));
            }
            Op::Act(h, s) => return Ok(same(&[c.act_get_signaled(*h)?], &[*s])),
            Op::FwHash(h) => c.set_firmware_hash(*h)?,
            Op::FwSvn(h) => c.set_firmware_svn(*h)?,
            Op::SessionEnd => c.session_end()?,
            Op::Stop => c.stop_simulator()?,
        }
        Ok(Ok(()))
    }
}
