//! C24, C25: client, transport and server together, and many of them at once.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, Ordering};
use tpm2_client::connection::*;
use tpm2_client::*;
use tpm2_impl::TpmContext;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::errors::TssError;
use tpm2_rs_base::*;
use tpmcheck::cmds::*;
use tpmcheck::rng::{hash_bytes, mix};
use tpmcheck::srv::{self, Ev, Plain, Shared};
use tpmcheck::tcpsim;
use tpmcheck::types::*;
use tpmcheck::*;

// ---- the server behind a connection --------------------------------------------------

/// The server under test with its recording platform.
struct Chip {
    s: Shared,
    ctx: TpmContext<Plain>,
    room: usize,
    in_place: bool,
    log: Vec<(Vec<u8>, Vec<u8>)>,
}
impl Chip {
    fn new(seed: u64, room: usize, in_place: bool) -> Chip {
        let s = srv::shared(seed);
        let ctx = srv::context::<Plain>(&s).unwrap_or_else(|_| panic!("the context cannot be created"));
        Chip { s, ctx, room, in_place, log: vec![] }
    }
    fn exchange(&mut self, cmd: &[u8]) -> Vec<u8> {
        let mut b = vec![0xA5; self.room.max(if self.in_place { cmd.len() } else { 0 })];
        let n = if self.in_place {
            b[..cmd.len()].copy_from_slice(cmd);
            self.ctx.execute_command_in_place(&mut b[..], cmd.len())
        } else {
            self.ctx.execute_command_separate(cmd, &mut b[..])
        };
        b.truncate(n);
        self.log.push((cmd.to_vec(), b.clone()));
        b
    }
}

struct Direct(Chip);
impl Connection for Direct {
    type Error = CErr;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], CErr> {
        let r = self.0.exchange(cmd);
        if r.len() > rsp.len() {
            return Err(CErr::Conn(r.len() as u64));
        }
        rsp[..r.len()].copy_from_slice(&r);
        Ok(&mut rsp[..r.len()])
    }
}

/// The code of an error that is a TPM or TSS error.
trait Coded: std::fmt::Debug {
    fn code(&self) -> Option<u32>;
}
impl Coded for CErr {
    fn code(&self) -> Option<u32> {
        match self {
            CErr::Tss(c) => Some(*c),
            _ => None,
        }
    }
}
impl Coded for std::io::Error {
    fn code(&self) -> Option<u32> {
        self.get_ref().and_then(|e| e.downcast_ref::<TssError>()).map(|e| e.get())
    }
}

/// Answers the frames of the TPM port until the client hangs up.
fn serve(mut s: TcpStream, mut f: impl FnMut(u8, &[u8]) -> Vec<u8>) {
    let mut word = [0u8; 4];
    while s.read_exact(&mut word).is_ok() {
        match u32::from_be_bytes(word) {
            8 => {
                let mut h = [0u8; 5];
                if s.read_exact(&mut h).is_err() {
                    return;
                }
                let n = u32::from_be_bytes(h[1..].try_into().unwrap()) as usize;
                if n > 1 << 20 {
                    return;
                }
                let mut cmd = vec![0; n];
                if s.read_exact(&mut cmd).is_err() {
                    return;
                }
                let r = f(h[0], &cmd);
                let mut o = (r.len() as u32).to_be_bytes().to_vec();
                o.extend_from_slice(&r);
                o.extend_from_slice(&[0; 4]);
                if s.write_all(&o).is_err() {
                    return;
                }
            }
            _ => return,
        }
    }
}

fn connected(c: &mut Case) -> Option<(TcpConnection, TcpStream, TcpStream)> {
    let p = tcpsim::ports();
    p.drain();
    match TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1))) {
        Ok(t) => {
            let (Some(a), Some(b)) = (p.accept(0), p.accept(1)) else {
                c.fail("not-connected", "no connection was made to one of the ports");
                return None;
            };
            Some((t, a, b))
        }
        Err(e) => {
            c.fail("connect", format!("{e}"));
            None
        }
    }
}

// ---- C24 -------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Want {
    /// GetRandom of so many bytes; the generator fails.
    Random(u16, bool),
    Refused(&'static str),
}
type Outcome = Result<Option<Vec<u8>>, (Option<u32>, String)>;

fn refused<C: TestCmd, T: Connection<Error: From<TssError> + Coded>>(r: &mut Rng, t: &mut T) -> (Vec<u8>, Outcome) {
    let log: Log = RefCell::new(vec![]);
    let n = r.below(4);
    let sess: Vec<Sess> = (0..n).map(|i| session(r, i, &log, false)).collect();
    let mut hb = vec![];
    let h = C::Handles::arb(r, &mut hb);
    let (cmd, pb) = C::sized(r, 120);
    let mut want = vec![0x80, if n > 0 { 2 } else { 1 }, 0, 0, 0, 0];
    want.extend_from_slice(&C::CODE.to_be_bytes());
    want.extend_from_slice(&hb);
    if n > 0 {
        let l: usize = sess.iter().map(|s| s.bytes.len()).sum();
        want.extend_from_slice(&(l as u32).to_be_bytes());
        sess.iter().for_each(|s| want.extend_from_slice(&s.bytes));
    }
    want.extend_from_slice(&pb);
    let len = want.len() as u32;
    want[2..6].copy_from_slice(&len.to_be_bytes());
    let out = match run_area(&cmd, h, sess, t) {
        Ok(_) => Ok(None),
        Err(e) => Err((e.code(), format!("{e:?}"))),
    };
    (want, out)
}

/// One exchange; the request that should be on the wire and the caller's result.
fn perform<T: Connection<Error: From<TssError> + Coded>>(r: &mut Rng, w: &Want, t: &mut T) -> (Vec<u8>, Outcome) {
    match w {
        Want::Random(n, _) => {
            let out = match run_command(&GetRandomCmd { bytes_requested: *n }, t) {
                Ok(x) => Ok(Some(x.random_bytes.get_buffer().to_vec())),
                Err(e) => Err((e.code(), format!("{e:?}"))),
            };
            (srv::get_random(*n as usize), out)
        }
        Want::Refused(k) => match *k {
            "Startup" => refused::<StartupCmd, T>(r, t),
            "PcrRead" => refused::<PcrReadCmd, T>(r, t),
            "GetCapability" => refused::<GetCapabilityCmd, T>(r, t),
            "Wide" => refused::<WideCmd, T>(r, t),
            "Bare" => refused::<BareCmd, T>(r, t),
            "Rich" => refused::<RichCmd, T>(r, t),
            "Nil" => refused::<NilCmd, T>(r, t),
            _ => refused::<IntCmd, T>(r, t),
        },
    }
}
fn wish(r: &mut Rng, room: usize) -> Want {
    if r.chance(2, 5) {
        return Want::Refused(*r.pick(&["Startup", "PcrRead", "GetCapability", "Wide", "Bare", "Nil", "Rich", "Int"]));
    }
    let n = match r.below(8) {
        0 => 0,
        1 => 65535,
        2 => room.saturating_sub(r.below(16)).min(65535),
        3 => r.range(60, 70),
        _ => r.below(64),
    };
    Want::Random(n as u16, r.chance(1, 8))
}

static REPORTED: AtomicBool = AtomicBool::new(false);

/// Judges one exchange from what was on the wire, at the caller and at the generator.
fn judge(c: &mut Case, w: &Want, want_req: &[u8], out: &Outcome, wire: &[(Vec<u8>, Vec<u8>)], evs: &[Ev], room: usize, how: &str) {
    c.eval();
    let what = format!("{w:?} {how}, server room {room}: {} -> {out:?}", wire.iter().map(|(a, b)| format!("{} answered {}", hex(a), hex(b))).collect::<Vec<_>>().join("; "));
    if wire.len() != 1 {
        return c.fail("exchanges", format!("{} exchanges; {what}", wire.len()));
    }
    let (req, rsp) = &wire[0];
    if req != want_req {
        return c.fail("request", format!("should be {}; {what}", hex(want_req)));
    }
    if rsp.len() < 10 {
        return c.fail("response", format!("no complete response; {what}"));
    }
    let be = |at: usize| u32::from_be_bytes(rsp[at..at + 4].try_into().unwrap());
    let rc = be(6);
    if be(2) as usize != rsp.len() || rsp[..2] != [0x80, 1] || (rc != 0 && rsp.len() != 10) {
        return c.fail("response", format!("malformed response; {what}"));
    }
    if rc != 0 {
        // The caller gets the server's code.
        if out.as_ref().err().map(|e| e.0) != Some(Some(rc)) {
            return c.fail("error-code", format!("the caller does not get {rc:#x}; {what}"));
        }
    }
    let fill = evs.iter().rev().find_map(|e| if let Ev::Fill { out, ok: true } = e { Some(out) } else { None });
    match w {
        Want::Refused(k) => {
            c.note(&format!("refused:{k}"));
            if rc != 0x143 {
                c.fail("unimplemented", format!("answered with {rc:#x} instead of 0x143; {what}"));
            }
        }
        Want::Random(_, true) => {
            // Too long a request may be refused before the generator is asked.
            let n = if let Want::Random(n, _) = w { *n as usize } else { 0 };
            c.note("generator-fails");
            if rc != 0x101 && !(rc == 0x904 && n + 12 > room) {
                c.fail("generator", format!("answered with {rc:#x} instead of 0x101; {what}"));
            }
        }
        Want::Random(n, false) => {
            let n = *n as usize;
            if rc != 0 {
                c.note("random-refused");
                if n + 12 <= room && n <= 64 {
                    c.fail("random-refused", what);
                } else if rc != 0x904 {
                    c.fail("random-code", format!("answered with {rc:#x} instead of 0x904; {what}"));
                }
                return;
            }
            if n + 10 > room {
                return c.fail("random-beyond", what);
            }
            let body = &rsp[10..];
            let data: &[u8] = fill.map(|v| &v[..]).unwrap_or(&[]);
            if body.len() >= 2 && body.len() == 2 + data.len() && body[..2] == (data.len() as u16).to_be_bytes() && body[2..] == *data && data.len() <= n {
                c.note("random-sized");
                let fine = match out {
                    Ok(Some(x)) => x == data,
                    _ => data.len() > 64 || rsp.len() > 4096,
                };
                if !fine || (n <= 64 && data.is_empty() && n > 0) {
                    c.fail("random-result", what);
                }
                return;
            }
            if data.len() == n && body == data {
                // The server leaves out the size of the buffer. What the caller
                // then sees is what these bytes mean to a client.
                c.note("random-without-size");
                let size = if n >= 2 { u16::from_be_bytes([body[0], body[1]]) as usize } else { usize::MAX };
                let reads = (rsp.len() <= 4096 && size <= 64 && size + 2 == n).then(|| body[2..].to_vec());
                match (out, reads) {
                    (Ok(Some(x)), Some(y)) if *x == y => c.note("random-misread"),
                    (Err(_), None) => {}
                    _ => c.fail("random-read", format!("not what these bytes mean; {what}")),
                }
                if !REPORTED.swap(true, Ordering::Relaxed) {
                    c.fail("get-random-without-size", what);
                }
                return;
            }
            c.fail("random-data", format!("generated {}; {what}", hex(data)));
        }
    }
}

fn prepare(s: &Shared, w: &Want) {
    let mut g = s.lock().unwrap();
    g.events.clear();
    if let Want::Random(_, true) = w {
        if g.drawn % 2 == 0 {
            let k = g.fills;
            g.fail_fill.push(k);
        } else {
            g.needs = true;
            let k = g.reseeds;
            g.fail_reseed.push(k);
        }
    } else if mix(g.fills) % 4 == 0 {
        g.needs = true;
    }
}
fn settle(s: &Shared) -> Vec<Ev> {
    let mut g = s.lock().unwrap();
    g.needs = false;
    g.fail_fill.clear();
    g.fail_reseed.clear();
    std::mem::take(&mut g.events)
}

fn rooms(r: &mut Rng) -> usize {
    *r.pick(&[4096, 4096, 4096, 10, 12, 64, 100, 1024, 5000, 70_000])
}

fn direct(c: &mut Case) {
    let n = c.rng.range(1, 30);
    exchanges(c, n)
}
/// More exchanges with one server than a 16-bit counter can count.
fn direct_long(c: &mut Case) {
    exchanges(c, if c.tier == Tier::Thorough { 500_000 } else { 120_000 });
    c.note("long-history");
}
fn exchanges(c: &mut Case, steps: usize) {
    let (room, in_place) = (rooms(&mut c.rng), c.rng.chance(1, 2));
    let mut t = Direct(Chip::new(c.rng.u64(), room, in_place));
    let mut seq = vec![];
    for _ in 0..steps {
        let w = match wish(&mut c.rng, room) {
            Want::Random(n, f) if steps > 1000 => Want::Random(n % 32, f),
            w => w,
        };
        prepare(&t.0.s, &w);
        t.0.log.clear();
        let mut r = Rng::new(c.rng.u64());
        let Some((req, out)) = c.no_panic("exchange", &format!("{w:?}"), || perform(&mut r, &w, &mut t)) else { return };
        let evs = settle(&t.0.s);
        let room = room.max(if in_place { req.len() } else { 0 });
        let wire = t.0.log.clone();
        judge(c, &w, &req, &out, &wire, &evs, room, if in_place { "in place" } else { "separate" });
        if seq.len() < 60 {
            seq.push(format!("{w:?}"));
        }
    }
    c.distinct(format!("{room}{in_place}{seq:?}").as_bytes());
    c.sample(|| format!("room {room} in place {in_place}: {}", seq.join(" ")));
    c.note("histories:direct");
}

fn over_tcp(c: &mut Case) {
    let Some((mut t, tpm, _plat)) = connected(c) else { return };
    let (room, in_place) = (rooms(&mut c.rng), c.rng.chance(1, 2));
    let mut chip = Chip::new(c.rng.u64(), room, in_place);
    let s = chip.s.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    let locality = c.rng.u8();
    t.set_locality(locality);
    let steps = c.rng.range(1, 25);
    let mut seq = vec![];
    std::thread::scope(|sc| {
        sc.spawn(move || {
            // A panic of the server ends the connection; the client reports it.
            let _ = call(|| {
                serve(tpm, |l, cmd| {
                    let r = chip.exchange(cmd);
                    let _ = tx.send((l, cmd.to_vec(), r.clone()));
                    r
                })
            });
        });
        for _ in 0..steps {
            let w = wish(&mut c.rng, room);
            prepare(&s, &w);
            let mut r = Rng::new(c.rng.u64());
            let Some((req, out)) = c.no_panic("exchange", &format!("{w:?}"), || perform(&mut r, &w, &mut t)) else { break };
            let evs = settle(&s);
            let got: Vec<(u8, Vec<u8>, Vec<u8>)> = rx.try_iter().collect();
            if got.iter().any(|g| g.0 != locality) {
                c.fail("locality", format!("{got:?}"));
            }
            let room = room.max(if in_place { req.len() } else { 0 });
            let wire: Vec<_> = got.into_iter().map(|g| (g.1, g.2)).collect();
            judge(c, &w, &req, &out, &wire, &evs, room, "over TCP");
            seq.push(format!("{w:?}"));
        }
        drop(t);
    });
    c.distinct(format!("{room}{in_place}{seq:?}").as_bytes());
    c.sample(|| format!("over TCP, room {room} in place {in_place}: {}", seq.join(" ")));
    c.note("histories:tcp");
}

/// Commands of the library and of users over TCP against a TPM that implements
/// them all: the caller gets the values that were sent.
fn implemented<C: TestCmd>(c: &mut Case, t: &mut TcpConnection, tx: &std::sync::mpsc::Sender<Vec<u8>>, rx: &std::sync::mpsc::Receiver<Vec<u8>>) {
    let log: Log = RefCell::new(vec![]);
    let n = c.rng.below(4);
    let r = &mut c.rng;
    let sess: Vec<Sess> = (0..n).map(|i| session(r, i, &log, false)).collect();
    let mut hb = vec![];
    let h = C::Handles::arb(r, &mut hb);
    let (cmd, pb) = C::sized(r, 300);
    let mut rh = vec![];
    let vh = C::RespHandles::arb(r, &mut rh);
    let (v, rp) = C::sized_resp(r, 500);
    let mut reply = vec![0x80, if n > 0 { 2 } else { 1 }, 0, 0, 0, 0, 0, 0, 0, 0];
    reply.extend_from_slice(&rh);
    if n > 0 {
        reply.extend_from_slice(&(rp.len() as u32).to_be_bytes());
    }
    reply.extend_from_slice(&rp);
    for _ in 0..n {
        reply.extend_from_slice(&[0, 0, 1, 0, 0]);
    }
    let code = if r.chance(1, 5) { r.u32() | 1 } else { 0 };
    if code != 0 {
        reply = vec![0x80, 1, 0, 0, 0, 0];
        reply.extend_from_slice(&code.to_be_bytes());
    }
    let l = reply.len() as u32;
    reply[2..6].copy_from_slice(&l.to_be_bytes());
    let auth: usize = sess.iter().map(|s| s.bytes.len()).sum::<usize>() + if n > 0 { 4 } else { 0 };
    if reply.len() > 4096 || 10 + hb.len() + auth + pb.len() > 4096 {
        return;
    }
    let what = format!("{} with {n} sessions answered {}", C::NAME, hex(&reply));
    tx.send(reply.clone()).expect("harness: scripted TPM");
    let Some(got) = c.no_panic("exchange", &what, || run_area(&cmd, h, sess, t)) else { return };
    c.eval();
    c.distinct(&reply);
    c.note(&format!("implemented:{}", C::NAME));
    let Ok(req) = rx.try_recv() else {
        return c.fail("exchanges", format!("nothing was sent; {what}"));
    };
    if req.len() < 10 || req[6..10] != C::CODE.to_be_bytes() || u32::from_be_bytes(req[2..6].try_into().unwrap()) as usize != req.len() || !req.ends_with(&pb) {
        c.fail("request", format!("{}; {what}", hex(&req)));
    }
    match got {
        Ok((x, y)) if code == 0 && x == v && y == vh => c.note("understood"),
        Err(e) if code != 0 && e.code() == Some(code) => c.note("error-understood"),
        Err(e) => c.fail("not-understood", format!("{e:?}; {what}")),
        Ok((x, y)) => c.fail("misunderstood", format!("{} {}; {what}", AnyVal::dbg(&x), AnyVal::dbg(&y))),
    }
    c.sample(|| what.clone());
}
fn scripted(c: &mut Case) {
    let Some((mut t, tpm, _plat)) = connected(c) else { return };
    let (tx, replies) = std::sync::mpsc::channel::<Vec<u8>>();
    let (seen, rx) = std::sync::mpsc::channel::<Vec<u8>>();
    std::thread::scope(|sc| {
        sc.spawn(move || {
            serve(tpm, |_, cmd| {
                let _ = seen.send(cmd.to_vec());
                replies.try_recv().unwrap_or_default()
            })
        });
        for _ in 0..c.rng.range(1, 12) {
            match c.rng.below(9) {
                0 => implemented::<GetCapabilityCmd>(c, &mut t, &tx, &rx),
                1 => implemented::<PcrReadCmd>(c, &mut t, &tx, &rx),
                2 => implemented::<GetRandomCmd>(c, &mut t, &tx, &rx),
                3 => implemented::<StartupCmd>(c, &mut t, &tx, &rx),
                4 => implemented::<WideCmd>(c, &mut t, &tx, &rx),
                5 => implemented::<BareCmd>(c, &mut t, &tx, &rx),
                6 => implemented::<RichCmd>(c, &mut t, &tx, &rx),
                7 => implemented::<NilCmd>(c, &mut t, &tx, &rx),
                _ => implemented::<IntCmd>(c, &mut t, &tx, &rx),
            }
        }
        drop(t);
    });
}

fn c24(ctx: &mut Ctx) {
    ctx.enough = 10;
    let n = ctx.n(6, 6000, 200_000);
    ctx.section("direct", n, direct);
    let n = ctx.n(0, 8, 32);
    ctx.section("long", n, direct_long);
    ctx.require("long-history", 2);
    if !cfg!(miri) {
        let n = ctx.n(0, 1500, 30_000);
        ctx.section("tcp", n, over_tcp);
        let n = ctx.n(0, 1500, 30_000);
        ctx.section("scripted-tpm", n, scripted);
    }
    ctx.rule = "A case is a history of commands the client runs against the real server (in process, or over a TCP bridge on the loopback interface) with a recording generator, or over TCP against a scripted TPM that implements every command. Requests on the wire must be the specified ones, the caller must get the server's data or the server's code. Non-trivial cases are distinct histories.".into();
    for (k, m) in [
        ("histories:direct", 1000),
        ("histories:tcp", 500),
        ("refused:Startup", 500),
        ("refused:PcrRead", 500),
        ("refused:GetCapability", 500),
        ("refused:Wide", 500),
        ("generator-fails", 500),
        ("random-refused", 500),
        ("understood", 1000),
        ("error-understood", 300),
    ] {
        ctx.require(k, m);
    }
}

// ---- C25 -------------------------------------------------------------------------------

/// The history of one context.
#[derive(Clone)]
struct Story {
    seed: u64,
    fail_fill: Vec<u64>,
    steps: Vec<Turn>,
}
#[derive(Clone)]
struct Turn {
    req: Vec<u8>,
    room: usize,
    in_place: bool,
    needs: bool,
}
fn story(r: &mut Rng, n: usize) -> Story {
    // Contexts that do one thing only, over and over: a streak in one must not show in another.
    let kind = r.below(8);
    if kind < 4 && !cfg!(miri) {
        let one = srv::request(r).0;
        let steps = (0..n)
            .map(|_| {
                let mut req = srv::get_random(1 + r.below(32));
                if kind == 1 && one.len() <= 300 {
                    req = one.clone();
                }
                let room = if kind == 2 { 10 + r.below(8) } else { req.len().max(64) };
                Turn { req, room, in_place: r.chance(1, 2), needs: kind == 3 }
            })
            .collect();
        let fail_fill = if kind == 0 || kind == 3 && r.chance(1, 2) { (0..n as u64).collect() } else { vec![] };
        return Story { seed: r.u64(), fail_fill, steps };
    }
    let steps = (0..n)
        .map(|_| {
            let (mut req, _) = srv::request(r);
            if r.chance(2, 3) || req.len() > 300 {
                req = srv::get_random(r.below(300));
            }
            let room = srv::rsp_len(r, &req).min(700);
            Turn { req, room, in_place: r.chance(1, 2), needs: r.chance(1, 10) }
        })
        .collect();
    Story { seed: r.u64(), fail_fill: (0..r.below(3)).map(|_| r.below(n) as u64).collect(), steps }
}
struct Live {
    s: Shared,
    ctx: TpmContext<Plain>,
    got: Vec<(Vec<u8>, Vec<Ev>)>,
}
fn begin(st: &Story, jitter: Option<Rng>) -> Live {
    let s = srv::shared(st.seed);
    s.lock().unwrap().fail_fill = st.fail_fill.clone();
    s.lock().unwrap().jitter = jitter;
    let ctx = srv::context::<Plain>(&s).unwrap_or_else(|_| panic!("the context cannot be created"));
    Live { s, ctx, got: vec![] }
}
impl Live {
    fn turn(&mut self, t: &Turn) {
        {
            let mut g = self.s.lock().unwrap();
            g.events.clear();
            g.needs = t.needs;
        }
        let mut b = vec![0x5A; if t.in_place { t.room.max(t.req.len()) } else { t.room }];
        let n = if t.in_place {
            b[..t.req.len()].copy_from_slice(&t.req);
            self.ctx.execute_command_in_place(&mut b[..], t.req.len())
        } else {
            self.ctx.execute_command_separate(&t.req, &mut b[..])
        };
        b.truncate(n);
        let ev = self.s.lock().unwrap().events.clone();
        self.got.push((b, ev));
    }
}
/// What the context must have answered, from its own history alone.
fn faithful(c: &mut Case, st: &Story, got: &[(Vec<u8>, Vec<Ev>)], alone: &[(Vec<u8>, Vec<Ev>)], how: &str) {
    c.eval();
    for (i, t) in st.steps.iter().enumerate() {
        let (rsp, ev) = &got[i];
        if (rsp, ev) != (&alone[i].0, &alone[i].1) {
            return c.fail(
                format!("differs:{how}"),
                format!("step {i} ({}): {} with {ev:?}, alone {} with {:?}", hex(&t.req), hex(rsp), hex(&alone[i].0), alone[i].1),
            );
        }
        let room = if t.in_place { t.room.max(t.req.len()) } else { t.room };
        let fill = ev.iter().rev().find_map(|e| if let Ev::Fill { out, ok } = e { Some((out, *ok)) } else { None });
        let fails = matches!(fill, Some((_, false)));
        let code = if rsp.len() >= 10 { Some(u32::from_be_bytes(rsp[6..10].try_into().unwrap())) } else { None };
        let fine = match srv::answer(&t.req, room) {
            srv::Answer::Code(x) => code == Some(x),
            // A buffer that can hold the bytes but not a size may be refused.
            srv::Answer::Random(k) if fails => code == Some(0x101) && k <= room,
            srv::Answer::Random(k) => {
                code == Some(0) && fill.is_some_and(|f| rsp.ends_with(f.0)) || (code == Some(0x904) && fill.is_none() && room < k + 12)
            }
            _ => true,
        };
        if !fine {
            return c.fail(format!("answer:{how}"), format!("step {i} ({}) answered {} with {ev:?}", hex(&t.req), hex(rsp)));
        }
    }
    c.note_n(&format!("turns:{how}"), st.steps.len() as u64);
}

fn contexts(c: &mut Case) {
    let miri = cfg!(miri);
    let k = if miri { 2 } else { c.rng.range(2, 8) };
    let n = match c.rng.below(40) {
        _ if miri => 4,
        0 => 400,
        _ => c.rng.range(5, 60),
    };
    let stories: Vec<Story> = (0..k).map(|_| story(&mut c.rng, n)).collect();
    let alone: Vec<Vec<_>> = stories
        .iter()
        .map(|s| {
            let mut l = begin(s, None);
            s.steps.iter().for_each(|t| l.turn(t));
            l.got
        })
        .collect();
    c.distinct(format!("{:?}", stories.iter().map(|s| (s.seed, s.steps.len())).collect::<Vec<_>>()).as_bytes());
    c.sample(|| format!("{k} contexts with {n} requests each"));
    // Interleaved on this thread.
    let mut live: Vec<Live> = stories.iter().map(|s| begin(s, None)).collect();
    let mut todo: Vec<usize> = (0..k).flat_map(|i| std::iter::repeat_n(i, n)).collect();
    if c.rng.chance(1, 3) {
        // In long stretches.
        let at = c.rng.below(todo.len());
        todo.rotate_left(at);
        for _ in 0..c.rng.below(4) {
            let (i, j) = (c.rng.below(todo.len()), c.rng.below(todo.len()));
            todo[i.min(j)..i.max(j)].rotate_left((i.max(j) - i.min(j)) / 2);
        }
    } else {
        for i in (1..todo.len()).rev() {
            todo.swap(i, c.rng.below(i + 1));
        }
    }
    let mut switches = 0;
    let mut last = k;
    for i in todo {
        let at = live[i].got.len();
        live[i].turn(&stories[i].steps[at]);
        switches += (i != last) as u64;
        last = i;
    }
    c.note_n("switches", switches);
    for i in 0..k {
        faithful(c, &stories[i], &live[i].got, &alone[i], "interleaved");
    }
    // On a thread each, at once; then also changing threads in between.
    for moving in [false, true] {
        let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
        let gate = std::sync::Barrier::new(k);
        let done: Vec<Result<Live, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..k)
                .map(|i| {
                    let (st, gate, seed) = (&stories[i], &gate, seeds[i]);
                    sc.spawn(move || {
                        let mut r = Rng::new(seed);
                        let mut l = begin(st, Some(Rng::new(seed ^ 1)));
                        gate.wait();
                        let mut at = 0;
                        while at < st.steps.len() {
                            let end = if moving { (at + r.range(1, 12)).min(st.steps.len()) } else { st.steps.len() };
                            let part = &st.steps[at..end];
                            let go = move || {
                                call(|| {
                                    part.iter().for_each(|t| l.turn(t));
                                    l
                                })
                            };
                            l = if moving { std::thread::scope(|s2| s2.spawn(go).join().expect("harness: thread")) } else { go() }?;
                            at = end;
                        }
                        Ok(l)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
        });
        let how = if moving { "moving" } else { "concurrent" };
        for (i, d) in done.into_iter().enumerate() {
            match d {
                Ok(l) => faithful(c, &stories[i], &l.got, &alone[i], how),
                Err(m) => c.fail(format!("panic:{how}"), m),
            }
        }
    }
    c.note_n("contexts", k as u64);
}

/// Many contexts that live at the same time, in turns.
fn many_contexts(c: &mut Case) {
    let (k, n) = (if c.tier == Tier::Thorough { 70_000 } else { 1500 }, 4);
    let stories: Vec<Story> = (0..k).map(|_| story(&mut c.rng, n)).collect();
    let alone: Vec<Vec<_>> = stories
        .iter()
        .map(|s| {
            let mut l = begin(s, None);
            s.steps.iter().for_each(|t| l.turn(t));
            l.got
        })
        .collect();
    let mut live: Vec<Live> = stories.iter().map(|s| begin(s, None)).collect();
    for step in 0..n {
        for j in 0..k {
            let i = if step % 2 == 0 { j } else { k - 1 - j };
            let (l, t) = (&mut live[i], &stories[i].steps[step]);
            if c.no_panic("context", "one of many", || l.turn(t)).is_none() {
                return;
            }
        }
    }
    for i in 0..k {
        faithful(c, &stories[i], &live[i].got, &alone[i], "many");
    }
    c.note("many-contexts");
    c.distinct(&c.index.to_be_bytes());
}

/// Many connections that are open at the same time, in turns.
fn many_connections(c: &mut Case) {
    use std::io::{Read, Write};
    let k = 90;
    let mut open = vec![];
    for _ in 0..k {
        let Some(x) = connected(c) else { return };
        open.push(x);
    }
    for round in 0..2 {
        for i in 0..k {
            open[i].0.set_locality((i * 3 + round) as u8);
        }
        let mut order: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() {
            order.swap(i, c.rng.below(i + 1));
        }
        for i in order {
            let (cmd, rsp) = (c.rng.bytes(10 + i), c.rng.bytes(5 + i));
            let (t, tpm, _) = &mut open[i];
            // The answer is there before the question.
            let mut o = (rsp.len() as u32).to_be_bytes().to_vec();
            o.extend_from_slice(&rsp);
            o.extend_from_slice(&[0; 4]);
            if tpm.write_all(&o).is_err() {
                return c.fail("closed:many", format!("connection {i} of {k} is closed"));
            }
            let mut b = [0; 256];
            c.eval();
            match c.no_panic("transact", "one of many", || t.transact(&cmd, &mut b).map(|x| x.to_vec())) {
                Some(Ok(x)) if x == rsp => {}
                Some(x) => return c.fail("transfer:many", format!("connection {i} of {k}: {x:?} instead of {}", hex(&rsp))),
                None => return,
            }
            let want = tcpsim::frame((i * 3 + round) as u8, &cmd);
            let mut got = vec![0; want.len()];
            tpm.set_read_timeout(Some(std::time::Duration::from_secs(20))).ok();
            if tpm.read_exact(&mut got).is_err() || got != want {
                return c.fail("frame:many", format!("connection {i} of {k} sent {} instead of {}", hex(&got), hex(&want)));
            }
            c.note("transfers:many");
        }
    }
    c.distinct(&c.index.to_be_bytes());
}

/// What the peer of connection `id` answers to its `i`th request.
fn reply_of(id: u64, i: u64, cmd: &[u8]) -> Vec<u8> {
    let mut r = Rng::new(hash_bytes(cmd) ^ mix(id) ^ i);
    let n = r.len_upto(200);
    r.bytes(n)
}
struct Line {
    id: u64,
    t: TcpConnection,
    i: u64,
    loc: u8,
    r: Rng,
}
impl Line {
    /// One operation; a description of what is wrong.
    fn turn(&mut self) -> Result<(), String> {
        match self.r.below(8) {
            0 => {
                self.loc = self.r.u8();
                self.t.set_locality(self.loc);
                Ok(())
            }
            1 | 2 => {
                let h = self.r.u32();
                match self.t.act_get_signaled(h) {
                    Ok(x) if x == (mix(self.id ^ h as u64) as u32) => Ok(()),
                    x => Err(format!("connection {}: ACT {h:#x} says {x:?}", self.id)),
                }
            }
            _ => {
                let n = self.r.len_upto(300);
                let cmd = self.r.bytes(n);
                let mut b = vec![0; 256];
                let mut framed = vec![self.loc];
                framed.extend_from_slice(&cmd);
                let want = reply_of(self.id, self.i, &framed);
                self.i += 1;
                match self.t.transact(&cmd, &mut b) {
                    Ok(x) if *x == want[..] => Ok(()),
                    x => Err(format!("connection {}: request {} gets {x:?} instead of {}", self.id, self.i - 1, hex(&want))),
                }
            }
        }
    }
}
fn serve_platform(mut s: TcpStream, id: u64) {
    let mut b = [0u8; 8];
    while s.read_exact(&mut b).is_ok() {
        let h = u32::from_be_bytes(b[4..].try_into().unwrap());
        let mut o = (mix(id ^ h as u64) as u32).to_be_bytes().to_vec();
        o.extend_from_slice(&[0; 4]);
        if u32::from_be_bytes(b[..4].try_into().unwrap()) != 26 || s.write_all(&o).is_err() {
            return;
        }
    }
}

fn connections(c: &mut Case) {
    let k = c.rng.range(2, 6);
    let n = c.rng.range(5, 40);
    let mut ws = vec![];
    let mut streams = vec![];
    for _ in 0..k {
        let Some((t, a, b)) = connected(c) else { return };
        let id = c.rng.u64();
        ws.push(Line { id, t, i: 0, loc: 0, r: Rng::new(c.rng.u64()) });
        streams.push((a, b, id));
    }
    c.distinct(format!("{:?}", streams.iter().map(|s| s.2).collect::<Vec<_>>()).as_bytes());
    let mode = c.index % 3;
    c.note(["connections:interleaved", "connections:concurrent", "connections:moving"][mode as usize]);
    std::thread::scope(|sc| {
        for (a, b, id) in streams {
            let mut i = 0;
            sc.spawn(move || {
                serve(a, |loc, cmd| {
                    let mut f = vec![loc];
                    f.extend_from_slice(cmd);
                    i += 1;
                    reply_of(id, i - 1, &f)
                })
            });
            sc.spawn(move || serve_platform(b, id));
        }
        if mode == 0 {
            for _ in 0..k * n {
                let i = c.rng.below(k);
                c.eval();
                if let Err(m) = ws[i].turn() {
                    c.fail("connection:interleaved", m);
                    break;
                }
            }
            c.note_n("transfers", (k * n) as u64);
            drop(ws);
            return;
        }
        let hs: Vec<_> = ws
            .into_iter()
            .map(|mut w| {
                sc.spawn(move || {
                    for _ in 0..n {
                        let mut go = || call(|| w.turn()).unwrap_or_else(|p| Err(format!("panic: {p}")));
                        let r = if mode == 2 {
                            std::thread::scope(|s2| s2.spawn(go).join().expect("harness: thread"))
                        } else {
                            go()
                        };
                        r?;
                    }
                    Ok::<(), String>(())
                })
            })
            .collect();
        for h in hs {
            c.evals(n as u64);
            c.note_n("transfers", n as u64);
            if let Err(m) = h.join().expect("harness: thread") {
                c.fail("connection:concurrent", m);
            }
        }
    });
}

/// The same client calls alone and at once.
fn clients(c: &mut Case) {
    let k = if cfg!(miri) { 2 } else { c.rng.range(2, 8) };
    let n = if cfg!(miri) { 3 } else { c.rng.range(3, 25) };
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    fn one(seed: u64, n: usize) -> Vec<String> {
        let mut r = Rng::new(seed);
        let mut t = Direct(Chip::new(r.u64(), 4096, r.chance(1, 2)));
        let mut script = Script::default();
        let mut v = vec![];
        for _ in 0..n {
            if r.chance(1, 2) {
                let w = wish(&mut r, 4096);
                let x = perform(&mut r, &w, &mut t);
                v.push(format!("{x:?}"));
            } else {
                let len = r.below(60);
                let mut b = r.bytes(len);
                if len >= 10 {
                    b[..6].copy_from_slice(&[0x80, 1, 0, 0, 0, len as u8]);
                    b[6..10].fill(0);
                }
                script.reply = Some(b);
                let w = wish(&mut r, 4096);
                let x = perform(&mut r, &w, &mut script);
                v.push(format!("{x:?}"));
            }
        }
        v.push(format!("{:x?}{:x?}", t.0.log, script.sent));
        v
    }
    let alone: Vec<_> = seeds.iter().map(|s| one(*s, n)).collect();
    let gate = std::sync::Barrier::new(k);
    let all: Vec<Result<Vec<String>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|s| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    call(|| one(*s, n))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    c.distinct(format!("{seeds:?}").as_bytes());
    for (i, x) in all.into_iter().enumerate() {
        c.eval();
        match x {
            Ok(v) => match v.iter().zip(&alone[i]).find(|(a, b)| a != b) {
                None => c.note_n("client-calls", n as u64),
                Some((a, b)) => c.fail("client:concurrent", format!("{a} instead of {b}")),
            },
            Err(m) => c.fail("panic:client", m),
        }
    }
}

/// One case of another section in a process of its own, so that each kind of
/// operation is at times the first of its process.
fn fresh(c: &mut Case) {
    let s = ["contexts", "clients", "connections", "connections"][c.index as usize % 4];
    let case = format!("{s}:{}", 1_000_000 + c.index);
    let me = std::env::current_exe().expect("harness: exe");
    let out = std::process::Command::new(me)
        .args(["C25", "quick", &c.rng.u32().to_string(), "-", &case])
        .env_remove("VERIF_JOURNAL")
        .output()
        .expect("harness: process");
    let text = String::from_utf8_lossy(&out.stdout);
    c.eval();
    c.note("processes");
    c.distinct(case.as_bytes());
    match out.status.code() {
        Some(0) => c.note("processes-faithful"),
        Some(1) => c.fail(format!("fresh:{s}"), text.chars().take(1500).collect::<String>()),
        x => c.note(&format!("process-ended:{x:?}")),
    }
}

fn c25(ctx: &mut Ctx) {
    ctx.enough = 5;
    let n = ctx.n(2, 1200, 30_000);
    ctx.section("contexts", n, contexts);
    let n = ctx.n(2, 1200, 30_000);
    ctx.section("clients", n, clients);
    if !cfg!(miri) {
        let n = ctx.n(0, 600, 10_000);
        ctx.section("connections", n, connections);
        let n = ctx.n(0, 240, 2400);
        ctx.section("fresh", n, fresh);
        let n = ctx.n(0, 8, 16);
        ctx.section("many-contexts", n, many_contexts);
        ctx.section_threads("many-connections", n, 2, many_connections);
        ctx.require("many-contexts", 2);
        ctx.require("transfers:many", 200);
        ctx.require("processes-faithful", 100);
    }
    ctx.rule = "A case runs several independent contexts, clients or connections, each with its own history: interleaved at random on one thread, at once on a thread each (started together, with random pauses inside the platform), and changing threads between calls. Each recorded history must equal the one recorded alone and agree with its own context's generator. Non-trivial cases are distinct sets of histories.".into();
    for (k, m) in [
        ("turns:interleaved", 10_000),
        ("turns:concurrent", 10_000),
        ("turns:moving", 10_000),
        ("switches", 10_000),
        ("client-calls", 10_000),
        ("connections:interleaved", 50),
        ("connections:concurrent", 50),
        ("connections:moving", 50),
        ("transfers", 5000),
    ] {
        ctx.require(k, m);
    }
}

fn main() {
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C24" => c24(&mut ctx),
        "C25" => c25(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
