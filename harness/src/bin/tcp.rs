//! C11-C13: the TCP connection to the simulator and the simulator's process.
use std::collections::HashMap;
use std::io::Write;
use std::net::TcpListener;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tpm2_client::connection::*;
use tpmcheck::tcpsim::*;
use tpmcheck::*;

#[derive(Clone, Debug)]
enum Fault {
    /// The answer ends after so many bytes and the stream is closed.
    Cut(usize),
    /// As much of the answer, then a reset.
    Reset(usize),
    /// These bytes of the answer are replaced.
    Patch(usize, Vec<u8>),
    /// This length instead of the real one, then so many bytes and the end.
    Length(u32, usize),
}
impl Fault {
    fn name(&self) -> &'static str {
        match self {
            Fault::Cut(0) => "fault:closed",
            Fault::Cut(_) => "fault:truncated",
            Fault::Reset(_) => "fault:reset",
            Fault::Patch(..) => "fault:acknowledgement",
            Fault::Length(..) => "fault:length",
        }
    }
    fn apply(&self, reply: &[u8]) -> (Vec<u8>, Then) {
        match self {
            Fault::Cut(n) => (reply[..*n].to_vec(), Then::End),
            Fault::Reset(n) => (reply[..*n].to_vec(), Then::Reset),
            Fault::Patch(at, b) => {
                let mut r = reply.to_vec();
                r[*at..*at + b.len()].copy_from_slice(b);
                (r, Then::End)
            }
            Fault::Length(l, n) => {
                let mut r = l.to_be_bytes().to_vec();
                r.extend(reply[4..].iter().cycle().take(*n));
                (r, Then::End)
            }
        }
    }
}

struct Plan {
    ops: Vec<Op>,
    /// Operation, step and what happens there; nothing is answered afterwards.
    fault: Option<(usize, usize, Fault)>,
    /// Microseconds of delay before every answer.
    slow: u64,
    /// Operations after the connection was ended.
    after: Vec<Op>,
    ends: [String; 2],
}

fn ends(p: &Ports) -> [String; 2] {
    [p.port(0).to_string(), p.port(1).to_string()]
}

fn script(c: &mut Case, plan: &Plan) -> ([Vec<Step>; 2], [Vec<u8>; 2]) {
    let mut steps = [vec![], vec![]];
    let mut sends = [vec![], vec![]];
    let mut loc = 0;
    for (i, op) in plan.ops.iter().enumerate() {
        if let Op::Locality(l) = op {
            loc = *l;
        }
        for (k, e) in op.exchanges(loc).into_iter().enumerate() {
            sends[e.port].extend_from_slice(&e.send);
            let here = plan.fault.as_ref().filter(|f| f.0 == i && f.1 == k).map(|f| &f.2);
            let (reply, then) = match here {
                Some(f) => f.apply(&e.reply),
                None => (e.reply, Then::Go),
            };
            if here.is_some() || !reply.is_empty() {
                let (mut cuts, mut wait, kind) = cuts(&mut c.rng, reply.len());
                if plan.ops.len() > 1000 {
                    (cuts, wait) = (vec![], 0);
                }
                if plan.slow > 0 {
                    cuts.truncate(1 + (plan.slow < 100_000) as usize);
                }
                if plan.slow == 0 && plan.ops.len() <= 1000 {
                    c.note(kind);
                }
                steps[e.port].push(Step { need: sends[e.port].len(), reply, cuts, wait: wait.max(plan.slow), then });
            }
            if here.is_some() {
                return (steps, sends);
            }
        }
    }
    (steps, sends)
}

fn history(c: &mut Case, plan: Plan) {
    let p = ports();
    p.drain();
    let conn = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1))));
    let conn = match conn {
        None => return,
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.fail("connect", format!("both ports are listening, yet connect says {e}")),
    };
    let s = [p.accept(0), p.accept(1)];
    for i in 0..2 {
        if s[i].is_none() {
            c.fail("not-connected", format!("no connection to port {i}"));
            return;
        }
    }
    drive(c, plan, conn, s)
}

fn drive(c: &mut Case, plan: Plan, mut conn: TcpConnection, streams: [Option<std::net::TcpStream>; 2]) {
    let (steps, sends) = script(c, &plan);
    let n_steps = steps.iter().map(|s| s.len()).sum::<usize>();
    let me = gettid();
    let canary = c.rng.u8();
    let mut bad: Option<(String, String)> = None;
    let mut complete = true;
    let seen = std::thread::scope(|sc| {
        let server = sc.spawn(move || play(streams, steps, me));
        let faulty = plan.fault.as_ref().map(|f| f.0);
        let all = plan.ops.iter().map(|o| (o, false)).chain(plan.after.iter().map(|o| (o, true)));
        for (i, (op, late)) in all.enumerate() {
            c.note(op.name());
            let what = format!("operation {i} of {:?}: {op:?}", plan.ends);
            let r = call(|| op.run(&mut conn, canary));
            c.eval();
            let r = match r {
                Ok(r) => r,
                Err(m) => {
                    bad = Some((format!("panic:{}", op.name()), format!("{m}; {what}")));
                    break;
                }
            };
            let too_large = matches!(op, Op::Transact { rsp, room, .. } if rsp.len() > *room);
            if faulty == Some(i) {
                c.note(plan.fault.as_ref().unwrap().2.name());
                if r.is_ok() {
                    bad = Some(("fault-unnoticed".into(), format!("succeeds despite {:?}; {what}", plan.fault)));
                }
                break;
            }
            if late {
                c.note("after-end");
                if r.is_ok() && !op.exchanges(0).iter().all(|e| e.reply.is_empty()) {
                    bad = Some(("success-after-end".into(), format!("succeeds on an ended connection; {what}")));
                    break;
                }
                continue;
            }
            match r {
                Ok(Ok(())) if too_large => {
                    bad = Some(("too-large-accepted".into(), what));
                    break;
                }
                Ok(Ok(())) => {}
                Err(_) if too_large => c.note("too-large"),
                Ok(Err(m)) => {
                    bad = Some((format!("result:{}", op.name()), format!("{m}; {what}")));
                    break;
                }
                Err(e) => {
                    complete = false;
                    bad = Some((format!("refused:{}", op.name()), format!("fails with {e}; {what}")));
                    break;
                }
            }
        }
        drop(conn);
        server.join().expect("harness: server thread")
    });
    c.note_n("answers", seen.answered.iter().sum::<usize>() as u64);
    if seen.stalled {
        c.fail("stalled", format!("client and simulator wait for each other after {:?} answers of {n_steps}; {}", seen.answered, brief(&plan.ops)));
        return;
    }
    if let Some((s, d)) = bad {
        c.fail(s, d);
        if !complete {
            return;
        }
    }
    for i in 0..2 {
        c.eval();
        let (got, want) = (&seen.bytes[i], &sends[i]);
        if got != want {
            let at = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
            c.fail(
                format!("sent:{}", if i == 0 { "tpm" } else { "platform" }),
                format!(
                    "port {i} received {} bytes instead of {}, different from {at}: {} instead of {}; {} {:?}",
                    got.len(),
                    want.len(),
                    hex(&got[at.saturating_sub(8).min(got.len())..]),
                    hex(&want[at.saturating_sub(8).min(want.len())..]),
                    brief(&plan.ops),
                    plan.fault
                ),
            );
            return;
        }
        if let Some(n) = seen.early[i] {
            c.fail("not-awaited", format!("port {i}: bytes after the first {n} came before those were answered; {}", brief(&plan.ops)));
            return;
        }
    }
}

fn brief(ops: &[Op]) -> String {
    let s = format!("{ops:?}");
    s.chars().take(6000).collect()
}

fn value(r: &mut Rng) -> u32 {
    r.edgy_u64(32) as u32
}
fn transact(r: &mut Rng, big: usize) -> Op {
    let len = |r: &mut Rng| match r.below(10) {
        0 => 0,
        1 => 10,
        2 => r.range(1000, 5000),
        3 if big > 0 => r.range(big / 2, big),
        _ => r.len_upto(70),
    };
    let (a, b) = (len(r), len(r));
    let rsp = r.bytes(b);
    let room = match r.below(6) {
        0 | 1 => b,
        2 => b + r.range(1, 9),
        3 => b + 4096,
        4 => b.saturating_sub(r.range(1, 12)),
        _ => *r.pick(&[0, 4, 10, 64, 4096]),
    };
    Op::Transact { cmd: r.bytes(a), rsp, room }
}
fn control(r: &mut Rng, k: usize) -> Op {
    match k {
        0..=11 => Op::Signal(SIGNALS[k].0),
        12 => Op::Reinit,
        13 => {
            let n = if r.chance(1, 20) { 300_000 } else { r.len_upto(2000) };
            Op::Hcrtm(r.bytes(n))
        }
        14 => Op::Handshake(value(r), value(r), value(r)),
        15 => Op::AltResult(value(r)),
        16 => Op::FailureMode,
        17 => Op::Sizes([value(r), value(r), value(r), value(r)]),
        18 => Op::Act(value(r), value(r)),
        19 => Op::FwHash(value(r)),
        _ => Op::FwSvn(value(r)),
    }
}
const CONTROLS: usize = 21;

/// A fault that a reply of this operation can have.
fn fault(r: &mut Rng, op: &Op, e: &Exchange) -> Fault {
    let n = e.reply.len();
    match r.below(6) {
        0 => Fault::Reset(r.below(n)),
        1 | 2 => Fault::Cut(r.below(n)),
        3 | 4 if matches!(op, Op::Transact { .. }) => {
            let huge = *r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x0100_0000, 5_000_000]);
            let l = if r.chance(1, 2) { (n - 8) as u32 + r.range(5, 40) as u32 } else { huge };
            // Less than the length and the terminator.
            Fault::Length(l, r.below(30.min(l as usize + 4)))
        }
        3 | 4 if matches!(op, Op::Sizes(_)) => {
            let l = *r.pick(&[0u32, 1, 8, 12, 15, 17, 20, 32, 0x1000_0000, 0x10_0000, u32::MAX, 16 << 8]);
            Fault::Length(l, r.below(30))
        }
        _ => Fault::Patch(n - 4, terminator(r)),
    }
}
fn terminator(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => (1u32 << r.below(32)).to_be_bytes().to_vec(),
        1 => (r.range(1, 255) as u32).to_be_bytes().to_vec(),
        2 => u32::MAX.to_be_bytes().to_vec(),
        _ => {
            let mut b = [0; 4];
            b[r.below(4)] = r.range(1, 255) as u8;
            b.to_vec()
        }
    }
}

fn mixed(c: &mut Case, transactions: usize, big: usize) -> Vec<Op> {
    let r = &mut c.rng;
    let n = r.range(1, 12);
    let mut ops = vec![];
    for _ in 0..n {
        if r.chance(1, 4) {
            ops.push(Op::Locality(r.u8()));
        }
        if r.chance(transactions, 100) {
            ops.push(transact(r, big));
        } else {
            let k = r.below(CONTROLS);
            ops.push(control(r, k));
        }
    }
    ops
}

fn key(c: &mut Case, plan: &Plan) {
    c.distinct(format!("{:?}{:?}", plan.ops, plan.fault).as_bytes());
    c.sample(|| {
        let mut s = format!("{:?} fault {:?} then {:?}", plan.ops, plan.fault, plan.after);
        s.truncate(700);
        s
    });
}

fn plan(ops: Vec<Op>) -> Plan {
    Plan { ops, fault: None, slow: 0, after: vec![], ends: ends(&ports()) }
}

fn transactions(c: &mut Case) {
    let big = if c.index % 16 == 0 { 40_000 } else { 0 };
    let mut p = plan(mixed(c, 85, big));
    if c.rng.chance(1, 3) {
        // One of the transactions goes wrong.
        let t: Vec<usize> =
            p.ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Transact { .. })).map(|x| x.0).collect();
        if !t.is_empty() {
            let i = *c.rng.pick(&t);
            if let Op::Transact { rsp, room, .. } = &mut p.ops[i] {
                if c.rng.chance(3, 4) {
                    *room = (*room).max(rsp.len() + 64);
                }
            }
            let e = p.ops[i].exchanges(0).remove(0);
            p.fault = Some((i, 0, fault(&mut c.rng, &p.ops[i].clone(), &e)));
        }
    }
    key(c, &p);
    history(c, p);
}

/// Every truncation of a short response, every bit of the terminator.
fn enumerated(c: &mut Case) {
    let n = c.rng.range(0, 24);
    let e = 4 + n + 4;
    let k = c.index as usize;
    let rsp = c.rng.bytes(n);
    let room = n + c.rng.below(5) * 7;
    let f = if k % 2 == 0 {
        Fault::Patch(e - 4, (1u32 << (k / 2 % 32)).to_be_bytes().to_vec())
    } else if k % 4 == 1 {
        Fault::Cut(k / 4 % e)
    } else {
        Fault::Reset(k / 4 % e)
    };
    let mut ops = vec![Op::Locality(c.rng.u8())];
    if c.rng.chance(1, 2) {
        ops.push(transact(&mut c.rng, 0));
    }
    let len = c.rng.len_upto(60);
    ops.push(Op::Transact { cmd: c.rng.bytes(len), rsp, room });
    let mut p = plan(ops);
    p.fault = Some((p.ops.len() - 1, 0, f));
    key(c, &p);
    history(c, p);
}

/// Every locality.
fn localities(c: &mut Case) {
    let l = c.index as u8;
    let mut ops = vec![];
    let first = transact(&mut c.rng, 0);
    if c.rng.chance(1, 2) {
        ops.push(first);
    }
    ops.extend([Op::Locality(l), transact(&mut c.rng, 0), transact(&mut c.rng, 0)]);
    ops.extend([Op::Locality(l ^ (1 << c.rng.below(8))), transact(&mut c.rng, 0)]);
    let p = plan(ops);
    key(c, &p);
    history(c, p);
}

fn large(c: &mut Case) {
    let big = c.rng.range(200_000, if c.tier == Tier::Thorough { 8_000_000 } else { 2_000_000 });
    let r = &mut c.rng;
    let cmd = if r.chance(2, 3) { r.bytes(big) } else { r.bytes(12) };
    let rsp = if r.chance(2, 3) { r.bytes(big - 777) } else { r.bytes(12) };
    let room = if r.chance(1, 3) { rsp.len() - 1 - r.below(rsp.len()) } else { rsp.len() + r.below(3) };
    let mut p = plan(vec![Op::Transact { cmd, rsp, room }, transact(r, 0), transact(r, 0)]);
    p.ops.truncate(3);
    c.note("large");
    c.distinct(format!("{big} {room}").as_bytes());
    c.sample(|| format!("{big} bytes, room {room}, then 2 transactions"));
    history(c, p);
}

fn slow(c: &mut Case) {
    let r = &mut c.rng;
    let k = r.below(CONTROLS);
    let ops = vec![transact(r, 0), control(r, k), transact(r, 0)];
    let mut p = plan(ops);
    p.slow = *r.pick(&[3_000, 40_000, 150_000, 400_000]);
    if c.index % 8 == 0 {
        p.ops.truncate(1);
        p.slow = 2_500_000;
    }
    c.note("slow");
    key(c, &p);
    history(c, p);
}

/// More transactions on one connection than a 16-bit counter can count.
fn long(c: &mut Case) {
    let n = if c.tier == Tier::Quick && std::env::var("VERIF_DIV").is_ok() { 5_000 } else { 70_000 };
    let ops = (0..n)
        .map(|_| match c.rng.below(200) {
            0 => Op::Locality(c.rng.u8()),
            1 => {
                let k = c.rng.below(12);
                control(&mut c.rng, k)
            }
            _ => {
                let (a, b) = (c.rng.below(24), c.rng.below(24));
                let room = *c.rng.pick(&[b, b + 1, 64, 64, b.saturating_sub(1)]);
                Op::Transact { cmd: c.rng.bytes(a), rsp: c.rng.bytes(b), room }
            }
        })
        .collect();
    c.note("long");
    c.distinct(&c.index.to_be_bytes());
    history(c, plan(ops))
}

extern "C" fn nothing(_: i32) {}
/// A handler that does nothing, so that the signal interrupts system calls.
fn install_handler() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as *const () as usize;
        assert!(libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut()) == 0, "harness: sigaction");
    }
}

/// Signals reach the thread while it waits for an answer, between any two pieces
/// of it: the operation is not to notice.
fn interrupted(c: &mut Case, op: Op) {
    let p = ports();
    p.drain();
    let Some(Ok(mut conn)) = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1)))) else {
        return c.fail("connect", "both ports are listening, yet connect fails");
    };
    let (Some(a), Some(b)) = (p.accept(0), p.accept(1)) else { return c.fail("not-connected", "a port has no connection") };
    let mut s = [a, b];
    let what = format!("{op:?} interrupted by signals");
    let what: String = what.chars().take(3000).collect();
    c.note(op.name());
    c.eval();
    let canary = c.rng.u8();
    let too_large = matches!(&op, Op::Transact { rsp, room, .. } if rsp.len() > *room);
    let (tx, rx) = std::sync::mpsc::channel();
    let mut sent = 0u64;
    let mut wrong = None;
    let r = std::thread::scope(|sc| {
        let (op, tx) = (&op, tx);
        let client = sc.spawn(move || {
            tx.send(unsafe { libc::pthread_self() } as usize).ok();
            call(move || op.run(&mut conn, canary))
        });
        let thread = rx.recv().expect("harness: thread") as libc::pthread_t;
        'all: for e in op.exchanges(0) {
            let x = &mut s[e.port];
            x.set_read_timeout(Some(Duration::from_secs(20))).ok();
            let mut got = vec![0; e.send.len()];
            if std::io::Read::read_exact(x, &mut got).is_err() {
                break;
            }
            if got != e.send {
                wrong = Some(format!("{} instead of {}", hex(&got), hex(&e.send)));
                break;
            }
            let (pieces, _, _) = cuts(&mut c.rng, e.reply.len());
            let mut at = 0usize;
            for n in pieces.into_iter().take(24).chain([usize::MAX]) {
                for _ in 0..c.rng.range(1, 3) {
                    std::thread::sleep(Duration::from_micros(c.rng.range(50, 900) as u64));
                    unsafe { libc::pthread_kill(thread, libc::SIGUSR1) };
                    sent += 1;
                }
                let end = at.saturating_add(n).min(e.reply.len());
                if x.write_all(&e.reply[at..end]).is_err() {
                    break 'all;
                }
                at = end;
            }
        }
        drop(s);
        client.join().expect("harness: client thread")
    });
    c.note("interrupted");
    c.note_n("signals", sent);
    c.distinct(what.as_bytes());
    match (r, wrong) {
        (_, Some(w)) => c.fail("interrupted-sends", format!("{w}; {what}")),
        (Err(m), _) => c.fail(format!("panic:{}", op.name()), format!("{m}; {what}")),
        (Ok(Ok(_)), _) if too_large => c.fail("too-large-accepted", what),
        (Ok(Ok(Err(m))), _) => c.fail(format!("result:{}", op.name()), format!("{m}; {what}")),
        (Ok(Err(e)), _) if !too_large => c.fail("interrupted-refused", format!("fails with {e}; {what}")),
        _ => {}
    }
}

/// Signals reach the thread while a long command is being sent: an operation that
/// succeeds has sent everything.
fn interrupted_sending(c: &mut Case) {
    let p = ports();
    p.drain();
    let Some(Ok(mut conn)) = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1)))) else {
        return c.fail("connect", "both ports are listening, yet connect fails");
    };
    let (Some(mut x), Some(_b)) = (p.accept(0), p.accept(1)) else { return c.fail("not-connected", "a port has no connection") };
    // More than the system holds for a peer that does not read.
    let len = c.rng.range(12_000_000, 16_000_000);
    let data = c.rng.bytes(len);
    let hash = c.index % 2 == 1;
    let op = if hash { Op::Hcrtm(data) } else { Op::Transact { cmd: data, rsp: c.rng.bytes(30), room: 64 } };
    let what = format!("{} with {len} bytes, interrupted while sending", op.name());
    c.note("interrupted-sending");
    c.eval();
    let ex = op.exchanges(0);
    let (tx, rx) = std::sync::mpsc::channel();
    let (r, got, clean, resumed) = std::thread::scope(|sc| {
        let op = &op;
        let client = sc.spawn(move || {
            tx.send(unsafe { libc::pthread_self() } as usize).ok();
            let r = call(|| op.run(&mut conn, 0));
            drop(conn);
            r
        });
        let thread = rx.recv().expect("harness: thread") as libc::pthread_t;
        let mut got = vec![];
        let mut ex = ex.iter();
        if hash {
            let e = ex.next().unwrap();
            let mut b = vec![0; e.send.len()];
            x.set_read_timeout(Some(Duration::from_secs(20))).ok();
            let _ = std::io::Read::read_exact(&mut x, &mut b);
            let _ = x.write_all(&e.reply);
            got = b;
        }
        for _ in 0..3 {
            std::thread::sleep(Duration::from_millis(20));
            unsafe { libc::pthread_kill(thread, libc::SIGUSR1) };
        }
        // What there is, until nothing more comes.
        x.set_read_timeout(Some(Duration::from_millis(400))).ok();
        let mut b = vec![0; 1 << 20];
        let rest: usize = ex.clone().next().unwrap().send.len() + got.len();
        let mut clean = false;
        while got.len() < rest {
            match std::io::Read::read(&mut x, &mut b) {
                Ok(0) => {
                    clean = true;
                    break;
                }
                Ok(n) => got.extend_from_slice(&b[..n]),
                Err(_) => break,
            }
        }
        let resumed = got.len() >= rest;
        for e in ex {
            let _ = x.write_all(&e.reply);
        }
        x.set_read_timeout(Some(Duration::from_secs(20))).ok();
        while !clean {
            match std::io::Read::read(&mut x, &mut b) {
                Ok(0) => clean = true,
                Ok(n) => got.extend_from_slice(&b[..n]),
                Err(_) => break,
            }
        }
        drop(x);
        (client.join().expect("harness: client thread"), got, clean, resumed)
    });
    c.note(if resumed { "sent-nevertheless" } else { "sending-cut-short" });
    c.distinct(what.as_bytes());
    let want: Vec<u8> = op.exchanges(0).iter().flat_map(|e| e.send.clone()).collect();
    match r {
        Err(m) => c.fail(format!("panic:{}", op.name()), format!("{m}; {what}")),
        Ok(Ok(Err(m))) => c.fail(format!("result:{}", op.name()), format!("{}; {what}", m.chars().take(300).collect::<String>())),
        Ok(Ok(Ok(()))) if clean && got != want => {
            c.fail("sent-in-part", format!("succeeds, yet {} bytes were sent instead of {}; {what}", got.len(), want.len()))
        }
        Ok(Ok(Ok(()))) => c.note("sent-whole"),
        Ok(Err(_)) => c.note("sending-failed"),
    }
}

/// The finite time limits that the sockets of the connection have now.
fn limits(locals: &[u16; 2]) -> Vec<Duration> {
    let mut v = vec![];
    for f in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        let Some(fd) = f.file_name().to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
        let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        let r = unsafe { libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) };
        if r != 0 || a.sin_family != libc::AF_INET as u16 || !locals.contains(&u16::from_be(a.sin_port)) {
            continue;
        }
        for o in [libc::SO_RCVTIMEO, libc::SO_SNDTIMEO] {
            let mut t: libc::timeval = unsafe { std::mem::zeroed() };
            let mut n = std::mem::size_of::<libc::timeval>() as u32;
            let r = unsafe { libc::getsockopt(fd, libc::SOL_SOCKET, o, &mut t as *mut _ as *mut libc::c_void, &mut n) };
            if r == 0 && (t.tv_sec > 0 || t.tv_usec > 0) {
                v.push(Duration::from_micros(t.tv_sec as u64 * 1_000_000 + t.tv_usec as u64));
            }
        }
    }
    v
}

/// The longest time limit that is waited for.
const LONGEST: Duration = Duration::from_secs(100);

/// The simulator takes its time, longer than any limit the sockets have: the
/// operation waits for it. `step` is the exchange that is held back after `sent`
/// bytes of the answer; without one, the command is not read for that time.
fn patience(c: &mut Case, op: Op, step: Option<(usize, usize)>) {
    let p = ports();
    p.drain();
    let Some(Ok(mut conn)) = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1)))) else {
        return c.fail("connect", "both ports are listening, yet connect fails");
    };
    let (Some(a), Some(b)) = (p.accept(0), p.accept(1)) else { return c.fail("not-connected", "a port has no connection") };
    let locals = [&a, &b].map(|s| s.peer_addr().map_or(0, |x| x.port()));
    let base = Duration::from_secs(match c.tier {
        Tier::Thorough => 75,
        _ if std::env::var_os("VERIF_DIV").is_some() => 1,
        _ => 11,
    });
    let ex = op.exchanges(0);
    let over = std::sync::atomic::AtomicBool::new(false);
    let mut held = Duration::ZERO;
    let mut late = false;
    let r = std::thread::scope(|sc| {
        let (op, over) = (&op, &over);
        let client = sc.spawn(move || {
            let r = call(|| op.run(&mut conn, 3));
            over.store(true, std::sync::atomic::Ordering::SeqCst);
            drop(conn);
            r
        });
        let mut st = [a, b];
        let mut hold = || {
            let t = Instant::now();
            let mut need = base;
            let mut n = 0;
            while t.elapsed() < need && !over.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(40));
                need = limits(&locals).into_iter().filter(|l| *l <= LONGEST).map(|l| l + Duration::from_millis(1500)).fold(need, Duration::max);
                n += 1;
                if n % 100 == 0 {
                    // Not asleep all the time: this is no deadlock.
                    let t = Instant::now();
                    while t.elapsed() < Duration::from_millis(30) {
                        std::hint::spin_loop();
                    }
                }
            }
            held = t.elapsed();
            late = over.load(std::sync::atomic::Ordering::SeqCst);
        };
        if step.is_none() {
            hold();
        }
        for (k, e) in ex.iter().enumerate() {
            let s = &mut st[e.port];
            s.set_read_timeout(Some(Duration::from_secs(20))).ok();
            let mut got = vec![0; e.send.len()];
            if std::io::Read::read_exact(s, &mut got).is_err() {
                break;
            }
            let (first, rest) = match step {
                Some((at, sent)) if at == k => e.reply.split_at(sent.min(e.reply.len())),
                _ => (&e.reply[..], &[][..]),
            };
            let _ = s.write_all(first);
            if step.is_some_and(|x| x.0 == k) {
                hold();
            }
            let _ = s.write_all(rest);
        }
        client.join().expect("harness: client thread")
    });
    c.eval();
    c.note("held-back");
    c.note_n("held-back-ms", held.as_millis() as u64);
    let what = format!("{} held back at {step:?} for {} ms{}", op.name(), held.as_millis(), if late { ", given up before" } else { "" });
    c.distinct(what.as_bytes());
    c.sample(|| what.clone());
    match r {
        Err(m) => c.fail(format!("panic:{}", op.name()), format!("{m}; {what}")),
        Ok(Ok(Err(m))) => c.fail(format!("result:{}", op.name()), format!("{}; {what}", m.chars().take(300).collect::<String>())),
        Ok(Ok(Ok(()))) => c.note("waited-for"),
        Ok(Err(e)) => c.fail("not-waited-for", format!("fails with {e}; {what}")),
    }
}
fn patient_transaction(c: &mut Case) {
    let n = c.rng.range(12, 60);
    let rsp = c.rng.bytes(n);
    match c.index {
        // More than the system holds for a peer that does not read.
        0 => {
            let op = Op::Transact { cmd: c.rng.bytes(14_000_000), rsp, room: 64 };
            patience(c, op, None)
        }
        k => {
            let sent = [0, 2, 4, 7, n + 3, n + 4, n + 6][(k as usize - 1) % 7];
            let op = Op::Transact { cmd: c.rng.bytes(20), rsp, room: if k > 7 { 8 + n } else { n } };
            patience(c, op, Some((0, sent)))
        }
    }
}
/// Every step of every operation.
fn patient_controls() -> Vec<(usize, usize)> {
    let mut r = Rng::new(1);
    (0..CONTROLS).flat_map(|k| (0..control(&mut r, k).exchanges(0).len()).map(move |s| (k, s))).collect()
}

fn c11(ctx: &mut Ctx) {
    ctx.enough = 2;
    install_handler();
    ctx.section_threads("patience", 8, 8, patient_transaction);
    ctx.require("held-back", 8);
    let n = ctx.n(0, 1200, 12_000);
    ctx.section_threads("interrupted", n, 16, |c| {
        let op = transact(&mut c.rng, 0);
        interrupted(c, op)
    });
    let n = ctx.n(0, 8, 64);
    ctx.section_threads("interrupted-sending", n, 4, interrupted_sending);
    ctx.require("interrupted-sending", 4);
    ctx.require("signals", 2000);
    let n = ctx.n(0, 8000, 60_000);
    ctx.section("transactions", n, transactions);
    let n = ctx.n(0, 800, 6000);
    ctx.section("enumerated", n, enumerated);
    let n = ctx.n(0, 256, 2560);
    ctx.section("localities", n, localities);
    let n = ctx.n(0, 24, 400);
    ctx.section("large", n, large);
    let n = ctx.n(0, 32, 400);
    ctx.section_threads("slow", n, 32, slow);
    let n = ctx.n(0, 2, 16);
    ctx.section("long", n, long);
    ctx.require("long", 1);
    let n = ctx.n(0, 200, 2000);
    ctx.section("unsent", n, |c| {
        let mut op = transact(&mut c.rng, 0);
        if let Op::Transact { rsp, room, .. } = &mut op {
            *room = (*room).max(rsp.len());
        }
        answered_unasked(c, op)
    });
    ctx.require("unsent", 100);
    ctx.rule = "A case is a history of operations on one connection with a scripted simulator on both ports: what arrives on each port must be exactly the frames the protocol prescribes, each answered before the next is sent, and each operation must return exactly its own answer; non-trivial cases are distinct histories (operations, data, fault).".into();
    for (k, m) in [
        ("op:transact", 5000),
        ("op:locality", 500),
        ("too-large", 300),
        ("fault:closed", 10),
        ("fault:truncated", 100),
        ("fault:reset", 50),
        ("fault:acknowledgement", 100),
        ("fault:length", 50),
        ("cut:single-bytes", 100),
        ("cut:in-length", 100),
        ("cut:before-end", 100),
        ("large", 20),
        ("slow", 30),
    ] {
        ctx.require(k, m);
    }
}

// ---- C12 -------------------------------------------------------------------------------

fn controls(c: &mut Case) {
    let mut p = plan(mixed(c, 20, 0));
    let k = c.index as usize % CONTROLS;
    let op = control(&mut c.rng, k);
    let at = c.rng.below(p.ops.len() + 1);
    p.ops.insert(at, op);
    if c.rng.chance(1, 3) {
        let end = if c.rng.chance(1, 2) { Op::SessionEnd } else { Op::Stop };
        p.ops.push(end);
        for _ in 0..c.rng.below(4) {
            let k = c.rng.below(CONTROLS + 3);
            let r = &mut c.rng;
            let op = match k {
                k if k < CONTROLS => control(r, k),
                k if k == CONTROLS => transact(r, 0),
                k if k == CONTROLS + 1 => Op::Stop,
                _ => Op::SessionEnd,
            };
            p.after.push(op);
        }
    }
    key(c, &p);
    history(c, p);
}

/// Every operation, every step of it, every fault of that step.
fn faults(c: &mut Case) {
    let k = c.index as usize % CONTROLS;
    let round = c.index as usize / CONTROLS;
    let op = control(&mut c.rng, k);
    let ex = op.exchanges(0);
    let step = round % ex.len();
    let e = &ex[step];
    let n = e.reply.len();
    // Truncations, resets, single bits of the terminator, lengths.
    let turn = round / ex.len();
    let f = match turn % 4 {
        0 => Fault::Cut(turn / 4 % n),
        1 => Fault::Patch(n - 4, (1u32 << (turn / 4 % 32)).to_be_bytes().to_vec()),
        2 => Fault::Reset(turn / 4 % n),
        _ if matches!(op, Op::Sizes(_)) => {
            let l = *c.rng.pick(&[0u32, 1, 4, 8, 12, 15, 17, 20, 32, 0x1000_0000, 0x10_0000, u32::MAX, 16 << 8, 0x110, 0x1_0010, 0x100_0010, 0x8000_0010]);
            Fault::Length(l, *c.rng.pick(&[20, 20, 20, l.min(40) as usize + 4, l.min(40) as usize, c.index as usize % 30]))
        }
        _ => fault(&mut c.rng, &op, e),
    };
    let mut ops = vec![];
    for _ in 0..c.rng.below(4) {
        let j = c.rng.below(CONTROLS);
        ops.push(if c.rng.chance(1, 4) { transact(&mut c.rng, 0) } else { control(&mut c.rng, j) });
    }
    ops.push(op);
    c.note(&format!("step:{}/{}", step + 1, ex.len()));
    let mut p = plan(ops);
    p.fault = Some((p.ops.len() - 1, step, f));
    key(c, &p);
    history(c, p);
}

/// The ports that are used when none is given.
fn default_ports(c: &mut Case) {
    let host = format!("127.{}.{}.{}", 60 + c.index % 4, std::process::id() / 250 % 250 + 1, std::process::id() % 250 + 1);
    let r = &mut c.rng;
    let (dt, dp) = (r.chance(2, 3), r.chance(2, 3));
    // Not only by an IPv4 address.
    let host = match r.below(4) {
        0 if TcpListener::bind("[::1]:0").is_ok() => "::1".to_string(),
        1 if TcpListener::bind("localhost:0").is_ok() => "localhost".to_string(),
        _ => host,
    };
    let bind = |d: bool, port: u16| TcpListener::bind((host.as_str(), if d { port } else { 0 }));
    let (Ok(a), Ok(b)) = (bind(dt, 2321), bind(dp, 2322)) else {
        c.note("port-taken");
        return;
    };
    for x in [&a, &b] {
        x.set_nonblocking(true).ok();
    }
    let p = Ports { l: [a, b] };
    let given = |d: bool, i: usize| if d { None } else { Some(p.port(i)) };
    c.note(&format!("default:{}{}", dt as u8, dp as u8));
    c.note(&format!("host:{}", if host.starts_with("127") { "v4" } else { host.as_str() }));
    c.eval();
    let conn = match c.no_panic("connect", "", || TcpConnection::connect(&host, given(dt, 0), given(dp, 1))) {
        None => return,
        Some(Ok(x)) => x,
        Some(Err(e)) => {
            return c.fail("default-ports", format!("TPM port default {dt}, platform port default {dp}: {e}"));
        }
    };
    let s = [p.accept(0), p.accept(1)];
    if s.iter().any(|x| x.is_none()) {
        return c.fail("default-ports", format!("TPM port default {dt}, platform port default {dp}: not connected"));
    }
    let mut pl = plan(mixed(c, 50, 0));
    pl.ends = ends(&p);
    key(c, &pl);
    drive(c, pl, conn, s);
}

/// Whether the client's end of this connection still exists; a reset removes it.
fn exists(local: u16, peer: u16) -> bool {
    let (a, b) = (format!(":{local:04X}"), format!(":{peer:04X}"));
    std::fs::read_to_string("/proc/net/tcp").expect("harness: /proc/net/tcp").lines().any(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        f.len() > 3 && f[1].ends_with(&a) && f[2].ends_with(&b) && f[3] != "07"
    })
}

/// The end of a session, or of the simulator, while the peer is still there, has
/// closed its side, or has reset the connection, for each of the ports.
fn endings(c: &mut Case) {
    let p = ports();
    p.drain();
    let conn = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1))));
    let mut conn = match conn {
        None => return,
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.fail("connect", format!("both ports are listening, yet connect says {e}")),
    };
    let mut s = [p.accept(0), p.accept(1)];
    if s.iter().any(|x| x.is_none()) {
        return c.fail("not-connected", "a port has no connection");
    }
    let stop = c.index % 2 == 1;
    let k = c.index as usize / 2 % 16;
    let state = [k % 4, k / 4];
    const STATE: [&str; 4] = ["there", "closed", "reset", "gone"];
    for i in 0..2 {
        let x = s[i].as_mut().unwrap();
        match state[i] {
            1 => {
                x.shutdown(std::net::Shutdown::Write).ok();
            }
            2 => {
                let (a, b) = (x.peer_addr().unwrap().port(), x.local_addr().unwrap().port());
                reset(x);
                s[i] = None;
                let t = Instant::now();
                while exists(a, b) {
                    if t.elapsed() > Duration::from_secs(2) {
                        c.note("not-reset");
                        return;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            // Whatever is sent there is answered with a reset.
            3 => s[i] = None,
            _ => {}
        }
    }
    let what = format!(
        "{} with the TPM port {} and the platform port {}",
        if stop { "stop" } else { "session end" },
        STATE[state[0]],
        STATE[state[1]]
    );
    c.note(&format!("end:{}-{}", STATE[state[0]], STATE[state[1]]));
    c.eval();
    let Some(r) = c.no_panic("end", &what, || if stop { conn.stop_simulator() } else { conn.session_end() }) else { return };
    drop(conn);
    let code = (if stop { 21u32 } else { 20 }).to_be_bytes();
    for i in 0..2 {
        let Some(x) = s[i].as_mut() else { continue };
        x.set_read_timeout(Some(Duration::from_secs(10))).ok();
        let mut got = vec![];
        let read = std::io::Read::read_to_end(x, &mut got);
        c.eval();
        if got != code && (r.is_ok() || !got.is_empty() || read.is_err()) {
            return c.fail(
                "end-not-sent",
                format!("{what}: says {r:?}, and port {i} received {} ({read:?}) instead of {}", hex(&got), hex(&code)),
            );
        }
    }
    if r.is_ok() && state.contains(&2) {
        return c.fail("end-lost", format!("{what}: succeeds, yet a port could not be told"));
    }
    if r.is_err() && state == [0, 0] {
        return c.fail("end-refused", format!("{what}: {r:?}"));
    }
    c.note(if r.is_ok() { "end-told" } else { "end-failed" });
    c.distinct(&c.index.to_be_bytes());
}

/// The answer of an operation is there before it begins, and the connection it
/// would be sent on has been reset since: what the peer cannot have received must
/// not be reported as done.
fn answered_unasked(c: &mut Case, op: Op) {
    let p = ports();
    p.drain();
    let conn = c.no_panic("connect", "", || TcpConnection::connect("127.0.0.1", Some(p.port(0)), Some(p.port(1))));
    let mut conn = match conn {
        None => return,
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.fail("connect", format!("both ports are listening, yet connect says {e}")),
    };
    let mut s = [p.accept(0), p.accept(1)];
    if s.iter().any(|x| x.is_none()) {
        return c.fail("not-connected", "a port has no connection");
    }
    let e = op.exchanges(0);
    let port = e[0].port;
    let mut x = s[port].take().unwrap();
    let (a, b) = (x.peer_addr().unwrap().port(), x.local_addr().unwrap().port());
    let replies: Vec<u8> = e.iter().flat_map(|e| e.reply.clone()).collect();
    if std::io::Write::write_all(&mut x, &replies).is_err() {
        return c.note("not-reset");
    }
    reset(&x);
    drop(x);
    let t = Instant::now();
    while exists(a, b) {
        if t.elapsed() > Duration::from_secs(2) {
            return c.note("not-reset");
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    c.eval();
    let canary = c.rng.u8();
    let Some(r) = c.no_panic("unsent", op.name(), || op.run(&mut conn, canary)) else { return };
    if r.is_ok() {
        return c.fail(
            "unsent-succeeds",
            format!("{}: succeeds, although the connection had been reset before anything was sent on it", op.name()),
        );
    }
    drop(conn);
    // Nothing of it belongs on the other port.
    let other = s[1 - port].as_mut().unwrap();
    other.set_read_timeout(Some(Duration::from_secs(10))).ok();
    let mut got = vec![];
    std::io::Read::read_to_end(other, &mut got).ok();
    c.eval();
    if !got.is_empty() {
        return c.fail("unsent-elsewhere", format!("{}: port {} received {}", op.name(), 1 - port, hex(&got)));
    }
    c.note("unsent");
    c.distinct(format!("{op:?}").as_bytes());
}

fn c12(ctx: &mut Ctx) {
    ctx.enough = 2;
    install_handler();
    let steps = patient_controls();
    ctx.section_threads("patience", steps.len() as u64, steps.len(), |c| {
        let (k, step) = steps[c.index as usize];
        let op = control(&mut c.rng, k);
        let n = op.exchanges(0)[step].reply.len();
        let sent = if c.rng.chance(1, 2) { 0 } else { c.rng.below(n) };
        patience(c, op, Some((step, sent)))
    });
    ctx.require("held-back", steps.len() as u64);
    let n = ctx.n(0, 60 * CONTROLS as u64, 600 * CONTROLS as u64);
    ctx.section_threads("interrupted", n, 16, |c| {
        let k = c.index as usize % CONTROLS;
        let op = control(&mut c.rng, k);
        interrupted(c, op)
    });
    let n = ctx.n(0, 8, 64);
    ctx.section_threads("interrupted-sending", n, 4, interrupted_sending);
    ctx.require("interrupted-sending", 4);
    ctx.require("signals", 2000);
    let n = ctx.n(0, 5000, 40_000);
    ctx.section("controls", n, controls);
    let n = ctx.n(0, 21 * 260, 21 * 3000);
    ctx.section("faults", n, faults);
    let n = ctx.n(0, 32 * 12, 32 * 120);
    ctx.section("endings", n, endings);
    ctx.require("end-told", 20);
    ctx.require("end-failed", 20);
    let n = ctx.n(0, 16 * CONTROLS as u64, 160 * CONTROLS as u64);
    ctx.section("unsent", n, |c| {
        let k = c.index as usize % CONTROLS;
        let op = control(&mut c.rng, k);
        answered_unasked(c, op)
    });
    ctx.require("unsent", 8 * CONTROLS as u64);
    let n = ctx.n(0, 32, 400);
    ctx.section_threads("default-ports", n, 1, default_ports);
    let n = ctx.n(0, 32, 400);
    ctx.section_threads("slow", n, 32, slow);
    ctx.rule = "A case is a history of control operations and transactions on one connection with a scripted simulator on both ports; in the fault section one answer (every operation and step in turn) is truncated, reset, mislabelled or not acknowledged. What arrives on each port must be exactly the prescribed codes and payloads up to that step, each answer awaited; returned values must be those sent. Non-trivial cases are distinct histories (operations, values, fault).".into();
    for (k, m) in [
        ("op:signal", 2000),
        ("op:reinit", 200),
        ("op:hash-sequence", 200),
        ("op:handshake", 200),
        ("op:alternative-result", 200),
        ("op:failure-mode", 200),
        ("op:sizes", 200),
        ("op:act", 200),
        ("op:firmware-hash", 200),
        ("op:firmware-svn", 200),
        ("op:session-end", 200),
        ("op:stop", 200),
        ("after-end", 200),
        ("step:1/4", 30),
        ("step:2/4", 30),
        ("step:3/4", 30),
        ("step:4/4", 30),
        ("step:2/3", 30),
        ("step:3/3", 30),
        ("fault:closed", 100),
        ("fault:truncated", 300),
        ("fault:reset", 300),
        ("fault:acknowledgement", 500),
        ("fault:length", 30),
    ] {
        ctx.require(k, m);
    }
}

// ---- C13 -------------------------------------------------------------------------------

/// The stand-in for the simulator program: this binary under another name.
/// `config` beside that name says what to publish when; nothing else is done.
fn pretend(me: &Path) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let dir = me.parent().unwrap().to_path_buf();
    let cfg: HashMap<String, String> = std::fs::read_to_string(dir.join("config"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let num = |k: &str| cfg.get(k).and_then(|v| v.parse::<u64>().ok());
    let mut rep = format!("cwd={}\n", std::env::current_dir().unwrap_or_default().display());
    for a in std::env::args_os().skip(1) {
        use std::os::unix::ffi::OsStrExt;
        let h: String = a.as_bytes().iter().map(|b| format!("{b:02x}")).collect();
        rep.push_str(&format!("arg={h}\n"));
    }
    let _ = std::fs::write(dir.join("report.tmp"), &rep);
    let _ = std::fs::rename(dir.join("report.tmp"), dir.join("report"));
    let start = Instant::now();
    for _ in 0..num("chatty").unwrap_or(0) {
        println!("{}", "x".repeat(1000));
        eprintln!("{}", "y".repeat(1000));
    }
    // (when, what): ports are published, or the program ends.
    let mut todo: Vec<(u64, String, String)> = vec![];
    for (k, v) in &cfg {
        if let Some(rest) = k.strip_prefix("file.") {
            let (name, ms) = rest.rsplit_once('@').unwrap();
            todo.push((ms.parse().unwrap(), name.to_string(), v.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t")));
        }
    }
    if let Some(ms) = num("exit") {
        todo.push((ms, "exit".into(), String::new()));
    }
    todo.sort();
    for (ms, name, v) in todo {
        let due = Duration::from_millis(ms);
        if let Some(d) = due.checked_sub(start.elapsed()) {
            std::thread::sleep(d);
        }
        if name == "exit" {
            std::process::exit(3);
        }
        if let Ok(mut f) = std::fs::File::create(&name) {
            let _ = f.write_all(v.as_bytes());
        }
        let _ = std::fs::write(dir.join(format!("done.{name}.{ms}")), now().to_string());
    }
    std::thread::sleep(Duration::from_secs(90));
    std::process::exit(0)
}

/// Microseconds of the clock that processes share.
fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
}

/// Processes with this text in their command line that are still running.
fn running(token: &str) -> Vec<i32> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").expect("harness: /proc").flatten() {
        let Ok(pid) = e.file_name().to_string_lossy().parse::<i32>() else { continue };
        let cmd = std::fs::read(format!("/proc/{pid}/cmdline")).unwrap_or_default();
        if !cmd.windows(token.len()).any(|w| w == token.as_bytes()) {
            continue;
        }
        let Ok(st) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { continue };
        if st.rfind(')').and_then(|i| st[i + 2..].chars().next()).is_some_and(|s| s != 'Z' && s != 'X') {
            v.push(pid);
        }
    }
    v
}

/// A port that is reserved; nobody listens until told to.
struct Reserved(i32, u16);
/// Ports of all kinds: any digits, any number of them from four.
fn reserve(r: &mut Rng, host: &str) -> Reserved {
    let wish = match r.below(10) {
        0 | 1 => r.range(1024, 10_000),
        2 | 3 => r.range(103, 6553) * 10,
        4 => r.range(11, 655) * 100,
        5 => r.range(2, 65) * 1000,
        6 => *r.pick(&[65535, 65534, 65500, 65530, 32767, 32768, 49152, 10_000, 9999, 2048, 8192, 11111, 55555, 2321, 2322]),
        7 => r.range(10_000, 65_535),
        _ => 0,
    };
    reserve_at(host, wish as u16).or_else(|| reserve_at(host, 0)).expect("harness: bind")
}
fn reserve_at(host: &str, wish: u16) -> Option<Reserved> {
    let ip: std::net::Ipv4Addr = host.parse().unwrap();
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0, "harness: socket");
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_addr.s_addr = u32::from(ip).to_be();
        a.sin_port = wish.to_be();
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        if libc::bind(fd, &a as *const _ as *const _, n) != 0 {
            libc::close(fd);
            return None;
        }
        assert!(libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut n) == 0, "harness: getsockname");
        Some(Reserved(fd, u16::from_be(a.sin_port)))
    }
}
impl Reserved {
    fn listen(self) -> TcpListener {
        unsafe {
            assert!(libc::listen(self.0, 8) == 0, "harness: listen");
            let l = TcpListener::from_raw_fd(self.0);
            l.set_nonblocking(true).expect("harness: nonblocking");
            std::mem::forget(self);
            l
        }
    }
}
impl Drop for Reserved {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        for pid in running(&self.0.to_string_lossy()) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let base = std::fs::canonicalize(base).expect("harness: scratch directory");
    let d = base.join(format!("sim-{}-{}-", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(d.join("run")).expect("harness: scratch directory");
    std::os::unix::fs::symlink(std::env::current_exe().expect("harness: exe"), d.join("fakesim-bin"))
        .expect("harness: symlink");
    Scratch(d)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Port {
    /// Published at this time (ms), after an empty file at an earlier one.
    At(u64),
    EmptyThen(u64, u64),
    Never,
    EmptyForever,
    Garbage(&'static str),
}
#[derive(Clone, Debug)]
struct Mode {
    port: [Port; 2],
    /// When somebody listens (ms after the call), if ever.
    listen: [Option<u64>; 2],
    exit: Option<u64>,
    chatty: u64,
    /// Before and after the number in the port files.
    around: (&'static str, &'static str),
    what: &'static str,
}
/// What the start can rely on: everything is there this long after the call.
const PATIENCE_US: u64 = 2_500_000;

fn args(r: &mut Rng) -> Vec<String> {
    (0..r.below(6))
        .map(|_| match r.below(7) {
            0 => String::new(),
            1 => "-rm".into(),
            2 => "two words \"quoted\" $HOME `x`".into(),
            3 => "ünï→".into(),
            4 => "--port=2321".into(),
            5 => "a\nb\\".into(),
            _ => r.u32().to_string(),
        })
        .collect()
}

/// Starts the stand-in; the result, the call's begin and end.
struct Started {
    dir: Scratch,
    res: std::io::Result<TcpSimulator>,
    t0: u64,
    t1: u64,
    ports: [u16; 2],
    listeners: [Option<TcpListener>; 2],
    up: [Option<u64>; 2],
}
/// Far longer than any start takes that gives up after some attempts.
const START_LIMIT: Duration = Duration::from_secs(150);

/// A start that neither succeeds nor fails keeps its caller for ever.
fn bounded(c: &mut Case, what: &str, f: impl FnOnce() -> std::io::Result<TcpSimulator> + Send + 'static) -> Option<std::io::Result<TcpSimulator>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(call(f));
    });
    match rx.recv_timeout(START_LIMIT) {
        Ok(Ok(r)) => Some(r),
        Ok(Err(p)) => {
            c.fail("panic:start", format!("start panicked: {p}; {what}"));
            None
        }
        Err(_) => {
            c.fail("never-returns", format!("{what}: the start has neither succeeded nor failed after {} s", START_LIMIT.as_secs()));
            None
        }
    }
}

fn start(c: &mut Case, m: &Mode) -> Option<Started> {
    let dir = scratch();
    let host = match c.rng.below(4) {
        0 => "127.0.0.1".to_string(),
        1 => format!("127.0.0.{}", c.rng.range(2, 254)),
        _ => format!("127.{}.{}.{}", c.rng.below(250), c.rng.below(250), c.rng.range(1, 250)),
    };
    let first = reserve(&mut c.rng, &host);
    // Often the platform port is the next one, as by default.
    let next = if c.rng.chance(1, 2) { first.1.checked_add(1).and_then(|p| reserve_at(&host, p)) } else { None };
    if next.is_some() {
        c.note("adjacent-ports");
    }
    let next = next.unwrap_or_else(|| reserve(&mut c.rng, &host));
    let res = [first, next];
    let ports = [res[0].1, res[1].1];
    let mut cfg = format!("chatty={}\n", m.chatty);
    for (i, name) in ["command.port", "platform.port"].iter().enumerate() {
        let text = format!("{}{}{}", m.around.0, ports[i], m.around.1);
        match m.port[i] {
            Port::At(t) => cfg += &format!("file.{name}@{t}={text}\n"),
            Port::EmptyThen(a, b) => cfg += &format!("file.{name}@{a}=\nfile.{name}@{b}={text}\n"),
            Port::Never => {}
            Port::EmptyForever => cfg += &format!("file.{name}@0=\n"),
            Port::Garbage(g) => cfg += &format!("file.{name}@0={g}\n"),
        }
    }
    if let Some(t) = m.exit {
        cfg += &format!("exit={t}\n");
    }
    std::fs::write(dir.0.join("config"), cfg).expect("harness: config");
    let a = args(&mut c.rng);
    let cwd = dir.0.join("run");
    let cwd_given = if c.rng.chance(1, 4) {
        // The same directory, relative to the current one.
        let here = std::env::current_dir().expect("harness: cwd");
        let mut p = PathBuf::new();
        for _ in here.components().skip(1) {
            p.push("..");
        }
        match cwd.strip_prefix(here.parent().unwrap_or(&here)) {
            Ok(x) => PathBuf::from("..").join(x),
            Err(_) => p.join(cwd.strip_prefix("/").unwrap()),
        }
    } else {
        cwd.clone()
    };
    let t0 = now();
    // The listeners come up on their own time.
    let plan = m.listen;
    let lt = std::thread::spawn(move || {
        let mut out = [None, None];
        let mut up = [None, None];
        let mut r = res.map(Some);
        let mut order: Vec<usize> = vec![0, 1];
        order.sort_by_key(|i| plan[*i].unwrap_or(0));
        for i in order {
            if let Some(ms) = plan[i] {
                let due = t0 + ms * 1000;
                if due > now() {
                    std::thread::sleep(Duration::from_micros(due - now()));
                }
                out[i] = Some(r[i].take().unwrap().listen());
                up[i] = Some(now());
            }
        }
        (out, up, r)
    });
    let bin = dir.0.join("fakesim-bin");
    // A name for the same host.
    let mut named = host.clone();
    if host == "127.0.0.1" && c.rng.chance(1, 3) {
        use std::net::ToSocketAddrs;
        if ("localhost", 1).to_socket_addrs().is_ok_and(|mut a| a.all(|x| x.ip() == std::net::Ipv4Addr::LOCALHOST)) {
            named = "localhost".into();
            c.note("host-by-name");
        }
    }
    let r = {
        let (bin, a, cwd_given, named) = (bin.clone(), a.clone(), cwd_given.clone(), named.clone());
        bounded(c, m.what, move || TcpSimulator::new(&bin, &a, &cwd_given, &named))
    };
    let t1 = now();
    let (listeners, up, _reserved) = lt.join().expect("harness: listeners");
    let res = r?;
    c.note_n("start-ms", (t1 - t0) / 1000);
    c.eval();
    // The program ran as asked.
    let mut rep = None;
    for _ in 0..3000 {
        rep = std::fs::read_to_string(dir.0.join("report")).ok();
        if rep.is_some() || (res.is_err() && running(&dir.0.to_string_lossy()).is_empty()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if let Some(rep) = rep {
        c.note("program-ran");
        let mut want = format!("cwd={}\n", cwd.display());
        for x in &a {
            let h: String = x.bytes().map(|b| format!("{b:02x}")).collect();
            want += &format!("arg={h}\n");
        }
        c.eval();
        if rep != want {
            c.fail("program", format!("the program was not run as asked: {rep:?} instead of {want:?}"));
        }
    } else if res.is_ok() || (t1 - t0) > 20_000_000 {
        c.fail("not-started", format!("{m:?}: the program was not started, the call says {:?}", res.as_ref().map(|_| ())));
    }
    c.distinct(format!("{m:?}{a:?}").as_bytes());
    c.sample(|| format!("{m:?} arguments {a:?}: {:?} after {} ms", res.as_ref().map(|_| ()), (t1 - t0) / 1000));
    Some(Started { dir, res, t0, t1, ports, listeners, up })
}
fn gone(token: &str) -> Vec<i32> {
    let t = Instant::now();
    loop {
        let v = running(token);
        if v.is_empty() || t.elapsed() > Duration::from_secs(10) {
            return v;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn failing_start(c: &mut Case) {
    let r = &mut c.rng;
    let ok = Port::At(0);
    let up = Some(0);
    let g = Port::Garbage(*r.pick(&["abc", "70000", "-1", "2321x", "0x911", "23 21"]));
    let k = c.index % 12;
    let (port, listen, what): (_, _, &'static str) = match k {
        0 => ([Port::Never, Port::Never], [up, up], "fault:no-port-files"),
        1 => ([ok, Port::Never], [up, up], "fault:no-platform-port-file"),
        2 => ([Port::Never, ok], [up, up], "fault:no-command-port-file"),
        3 => ([Port::EmptyForever, ok], [up, up], "fault:empty-command-port-file"),
        4 => ([ok, Port::EmptyForever], [up, up], "fault:empty-platform-port-file"),
        5 => ([g, ok], [up, up], "fault:garbage-command-port"),
        6 => ([ok, g], [up, up], "fault:garbage-platform-port"),
        7 => ([ok, ok], [None, None], "fault:nobody-listens"),
        8 => ([ok, ok], [up, None], "fault:platform-port-refuses"),
        9 => ([ok, ok], [None, up], "fault:command-port-refuses"),
        10 => ([Port::Never, Port::Never], [None, None], "fault:program-exits"),
        _ => ([ok, ok], [None, None], "fault:program-exits-after-publishing"),
    };
    let exit = match k {
        10 => Some(r.below(50) as u64),
        11 => Some(20 + r.below(500) as u64),
        _ => None,
    };
    let m = Mode { port, listen, exit, chatty: 0, around: around(r), what };
    let Some(s) = start(c, &m) else { return };
    c.note(what);
    match &s.res {
        Ok(_) => c.fail("started-anyway", format!("{m:?}: the start succeeds")),
        Err(_) => {
            let left = gone(&s.dir.0.to_string_lossy());
            c.eval();
            if !left.is_empty() {
                c.fail("left-running", format!("{m:?}: the start failed, process {left:?} keeps running"));
            }
        }
    }
}

fn no_program(c: &mut Case) {
    let dir = scratch();
    let run = dir.0.join("run");
    let bin = dir.0.join("fakesim-bin");
    let file = dir.0.join("plain");
    std::fs::write(&file, "not a program").expect("harness: file");
    let none = dir.0.join("missing");
    std::fs::write(dir.0.join("config"), "").expect("harness: config");
    let (b, d, what) = match c.index % 4 {
        0 => (&none, &run, "fault:missing-program"),
        1 => (&bin, &none, "fault:missing-directory"),
        2 => (&file, &run, "fault:not-executable"),
        _ => (&bin, &file, "fault:not-a-directory"),
    };
    let a = args(&mut c.rng);
    c.note(what);
    c.eval();
    let r = {
        let (b, a, d) = (b.clone(), a.clone(), d.clone());
        bounded(c, what, move || TcpSimulator::new(&b, &a, &d, "127.0.0.1"))
    };
    let Some(r) = r else { return };
    if r.is_ok() {
        c.fail("started-anyway", what);
    }
    drop(r);
    let left = gone(&dir.0.to_string_lossy());
    if !left.is_empty() {
        c.fail("left-running", format!("{what}: the start failed, process {left:?} keeps running"));
    }
    c.distinct(format!("{what}{a:?}").as_bytes());
}

/// White space around a port number.
fn around(r: &mut Rng) -> (&'static str, &'static str) {
    *r.pick(&[("", ""), ("", ""), ("", "\\n"), ("", "\\n"), ("", "\\n"), ("", "\\r\\n"), ("", " "), ("", "\\t\\n"), (" ", "\\n"), ("\\n", "\\n\\n")])
}

fn late(r: &mut Rng) -> u64 {
    *r.pick(&[0, 0, 30, 200, 700, 1300, 1900, 2200])
}

fn good_start(c: &mut Case) {
    let r = &mut c.rng;
    let p = |r: &mut Rng| {
        let t = late(r);
        if t > 0 && r.chance(1, 2) { Port::EmptyThen(r.below(t as usize) as u64, t) } else { Port::At(t) }
    };
    let port = [p(r), p(r)];
    let listen = if r.chance(1, 3) { [Some(late(r)), Some(late(r))] } else { [Some(0), Some(0)] };
    let chatty = if r.chance(1, 5) { 300 } else { 0 };
    let m = Mode { port, listen, exit: None, chatty, around: around(r), what: "start" };
    let is_late = |p: &Port| matches!(p, Port::At(t) if *t > 0);
    for i in 0..2 {
        if matches!(port[i], Port::EmptyThen(..)) {
            c.note("file-empty-first");
        }
        if is_late(&port[i]) {
            c.note("file-late");
        }
        if listen[i] > Some(0) {
            c.note("listener-late");
        }
    }
    let Some(mut s) = start(c, &m) else { return };
    let token = s.dir.0.to_string_lossy().into_owned();
    let sim = match s.res {
        Ok(x) => x,
        Err(e) => {
            // Everything was there in time?
            let mut ready = s.up.iter().map(|u| u.unwrap_or(u64::MAX)).max().unwrap();
            for (i, name) in ["command.port", "platform.port"].iter().enumerate() {
                let (Port::At(t) | Port::EmptyThen(_, t)) = port[i] else { unreachable!() };
                let at = std::fs::read_to_string(s.dir.0.join(format!("done.{name}.{t}"))).ok().and_then(|v| v.parse().ok());
                ready = ready.max(at.unwrap_or(u64::MAX));
            }
            c.eval();
            if ready.saturating_sub(s.t0) <= PATIENCE_US {
                c.fail(
                    "start-refused",
                    format!("{m:?}: everything was there after {} ms, the start fails: {e}", (ready - s.t0) / 1000),
                );
            } else if s.t1 - s.t0 < PATIENCE_US && !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::OutOfMemory) {
                // Nothing was wrong with the program, it was not given the time.
                c.fail("gave-up-early", format!("{m:?}: the start fails after {} ms: {e}", (s.t1 - s.t0) / 1000));
            } else {
                c.note("too-slow-to-judge");
            }
            let left = gone(&token);
            if !left.is_empty() {
                c.fail("left-running", format!("{m:?}: the start failed, process {left:?} keeps running"));
            }
            return;
        }
    };
    c.note("started");
    let p = Ports { l: s.listeners.map(|l| l.expect("harness: listener")) };
    let st = [last(&p, 0), last(&p, 1)];
    for i in 0..2 {
        if st[i].is_none() {
            c.fail("not-connected", format!("{m:?}: no connection to port {} named by the file of port {i}", s.ports[i]));
            return;
        }
    }
    s.ports = [0; 2];
    lifetime(c, sim, st, &token);
}

/// The newest connection: earlier ones belong to attempts that were given up.
fn last(p: &Ports, i: usize) -> Option<std::net::TcpStream> {
    let mut s = p.accept(i)?;
    while let Ok((x, _)) = p.l[i].accept() {
        x.set_nonblocking(false).ok();
        s = x;
    }
    Some(s)
}

fn lifetime(c: &mut Case, mut sim: TcpSimulator, st: [Option<std::net::TcpStream>; 2], token: &str) {
    let pl = plan(mixed(c, 40, 0));
    let (mut steps, mut sends) = script(c, &pl);
    let me = gettid();
    // How the simulator can no longer be asked.
    let broken = c.index % 7;
    let note = [
        "asked",
        "fault:both-ports-reset",
        "fault:command-port-reset",
        "fault:platform-port-reset",
        "stopped",
        "session-ended",
        "asked-before",
    ][broken as usize];
    c.note(note);
    // The last operation on a port that is reset fails, so the reset has arrived.
    let mut probes: Vec<Op> = vec![];
    for port in 0..2 {
        let hit = matches!((broken, port), (1, _) | (2, 0) | (3, 1));
        if !hit {
            continue;
        }
        let op = if port == 0 { Op::AltResult(7) } else { Op::FailureMode };
        sends[port].extend_from_slice(&op.exchanges(0)[0].send);
        steps[port].push(Step { need: sends[port].len(), reply: vec![], cuts: vec![], wait: 0, then: Then::Reset });
        probes.push(op);
    }
    let mut bad = None;
    let mut after: Option<Vec<i32>> = None;
    let mut ended = false;
    let seen = std::thread::scope(|sc| {
        let server = sc.spawn(move || play(st, steps, me));
        for op in &pl.ops {
            let too_large = matches!(op, Op::Transact { rsp, room, .. } if rsp.len() > *room);
            match call(|| op.run(sim.connection_mut(), 9)) {
                Ok(Ok(Ok(()))) if !too_large => {}
                Ok(Err(_)) if too_large => {}
                x => {
                    bad = Some(("operation".to_string(), format!("{op:?} on the started simulator: {x:?}")));
                    break;
                }
            }
        }
        if bad.is_none() {
            for op in &probes {
                if let Ok(Ok(_)) = call(|| op.run(sim.connection_mut(), 9)) {
                    bad = Some(("probe".into(), format!("{op:?} succeeds although the connection was reset")));
                }
            }
        }
        // Asked on both ports once, but the program goes on; or the session was ended.
        if broken == 5 || broken == 6 {
            let r = call(|| if broken == 5 { sim.connection_mut().session_end() } else { sim.stop_nicely() });
            match r {
                Ok(Ok(())) => {
                    for s in sends.iter_mut() {
                        s.extend_from_slice(&(if broken == 5 { 20u32 } else { 21 }).to_be_bytes());
                    }
                    ended = true;
                }
                x => bad = Some(("end".into(), format!("{note}: {x:?}"))),
            }
        }
        if broken == 4 {
            match call(|| sim.stop()) {
                Ok(Ok(())) => {
                    // It was told to end the process, whatever the ports say.
                    after = Some(gone(token));
                }
                x => bad = Some(("stop".into(), format!("stop says {x:?}"))),
            }
        }
        if let Err(p) = call(|| drop(sim)) {
            bad = Some(("panic:drop".into(), p));
        }
        server.join().expect("harness: server thread")
    });
    if seen.stalled {
        return c.fail("stalled", format!("client and simulator wait for each other after {:?} answers", seen.answered));
    }
    if let Some((s, d)) = bad {
        return c.fail(s, d);
    }
    c.eval();
    if broken == 0 {
        for i in 0..2 {
            let want = [&sends[i][..], &21u32.to_be_bytes()].concat();
            if seen.bytes[i] != want {
                return c.fail(
                    "not-asked",
                    format!("dropped: port {i} received {} instead of {}", hex(&seen.bytes[i]), hex(&want)),
                );
            }
        }
        c.note("stop-asked");
        return;
    }
    if ended {
        for i in 0..2 {
            if seen.bytes[i] != sends[i] {
                return c.fail("end", format!("{note}: port {i} received {} instead of {}", hex(&seen.bytes[i]), hex(&sends[i])));
            }
        }
    }
    let left = after.unwrap_or_else(|| gone(token));
    if !left.is_empty() {
        c.fail("not-killed", format!("{note}: dropped, and process {left:?} keeps running"));
    } else {
        c.note("killed");
    }
}

fn c13(ctx: &mut Ctx) {
    ctx.enough = 2;
    // So that a relative path can name the directories below.
    if let Some(d) = std::env::var_os("VERIF_SCRATCH") {
        // Not the directory for temporary files itself.
        let d = PathBuf::from(d).join("here");
        std::fs::create_dir_all(&d).and_then(|()| std::env::set_current_dir(&d)).expect("harness: scratch directory");
    }
    let n = ctx.n(0, 220, 3000);
    ctx.section_threads("start", n, 48, good_start);
    let n = ctx.n(0, 96, 1200);
    ctx.section_threads("failing-start", n, 48, failing_start);
    let n = ctx.n(0, 40, 400);
    ctx.section("no-program", n, no_program);
    ctx.rule = "A case starts a stand-in simulator process (this binary under another name) whose port files and listeners appear at chosen times, are wrong or missing, or which exits; the process reports how it was run, the test listens on the ports and looks for surviving processes in /proc. Non-trivial cases are distinct (timing and fault plan, arguments).".into();
    ctx.assumptions.push("an error is accepted when the port files and listeners were not all there within 2.5 s of the call".into());
    for (k, m) in [
        ("adjacent-ports", 20),
        ("program-ran", 150),
        ("started", 100),
        ("file-late", 50),
        ("file-empty-first", 50),
        ("listener-late", 30),
        ("stop-asked", 20),
        ("killed", 60),
        ("session-ended", 15),
        ("asked-before", 15),
        ("fault:no-port-files", 5),
        ("fault:garbage-command-port", 5),
        ("fault:nobody-listens", 5),
        ("fault:platform-port-refuses", 5),
        ("fault:program-exits", 5),
        ("fault:missing-program", 5),
    ] {
        ctx.require(k, m);
    }
}

fn main() {
    let me = std::env::args_os().next().map(PathBuf::from).unwrap_or_default();
    if me.file_name().is_some_and(|n| n.to_string_lossy().starts_with("fakesim-")) {
        pretend(&me);
    }
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C11" => c11(&mut ctx),
        "C12" => c12(&mut ctx),
        "C13" => c13(&mut ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
