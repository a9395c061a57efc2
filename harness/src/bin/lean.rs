//! C28: the crates without a heap, without an operating system, on a small stack.
//! An allocator that records every request made while a step runs, a stack that is
//! painted beforehand and looked at afterwards, and a program without standard
//! library and allocator that takes the same steps with all system calls but
//! read, write and exit given up.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use tpmcheck::types::TypeInfo;
use tpmcheck::work::{ROOM, STEPS, Seen};
use tpmcheck::*;

/// Stack a step may use, the frames of the driver included.
const STACK: usize = 64 << 10;

struct Watching;
thread_local! {
    static BANNED: Cell<bool> = const { Cell::new(false) };
    static CAUGHT: Cell<(u32, usize)> = const { Cell::new((0, 0)) };
}
fn asked(n: usize) {
    if BANNED.get() {
        CAUGHT.set((CAUGHT.get().0 + 1, n));
    }
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        asked(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Watching = Watching;

/// Runs with allocation noticed; `None` if it panicked.
fn watched(k: usize, input: &[u8], room: &mut [u8]) -> Option<(u64, u32, usize)> {
    CAUGHT.set((0, 0));
    let r = call(|| {
        let mut s = Seen(k as u64);
        BANNED.set(true);
        (STEPS[k].2)(input, room, &mut s);
        BANNED.set(false);
        s.0
    });
    BANNED.set(false);
    let (n, size) = CAUGHT.get();
    r.ok().map(|d| (d, n, size))
}

// ---- stack --------------------------------------------------------------------------------

struct Stack {
    base: *mut u8,
    len: usize,
}
const PAINT: u8 = 0xA7;
const GUARD: usize = 4096;
impl Stack {
    fn new(len: usize) -> Stack {
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED, "harness: no memory for a stack");
            // What runs off the end stops there.
            assert!(libc::mprotect(base, GUARD, libc::PROT_NONE) == 0);
            Stack { base: base.cast(), len }
        }
    }
    /// The number of bytes that `f` touched below the frame that called it.
    fn touched(&mut self, f: &mut (dyn FnMut() + Send)) -> usize {
        let mut from = 0;
        let f = &mut || {
            let mark = 0u8;
            from = std::hint::black_box(&raw const mark).addr();
            f();
        };
        let f: &mut (dyn FnMut() + Send) = f;
        extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
            let f = unsafe { &mut *(p as *mut &mut (dyn FnMut() + Send)) };
            f();
            std::ptr::null_mut()
        }
        unsafe {
            let usable = std::slice::from_raw_parts_mut(self.base.add(GUARD), self.len - GUARD);
            usable.fill(PAINT);
            let mut f = f;
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            let mut t: libc::pthread_t = std::mem::zeroed();
            assert!(libc::pthread_attr_init(&mut attr) == 0);
            assert!(libc::pthread_attr_setstack(&mut attr, usable.as_mut_ptr().cast(), usable.len()) == 0);
            let ok = libc::pthread_create(&mut t, &attr, start, (&mut f as *mut &mut (dyn FnMut() + Send)).cast());
            assert!(ok == 0, "harness: no thread");
            libc::pthread_join(t, std::ptr::null_mut());
            libc::pthread_attr_destroy(&mut attr);
            let low = usable.iter().position(|x| *x != PAINT).unwrap_or(usable.len());
            from.saturating_sub(usable.as_ptr().addr() + low)
        }
    }
}
impl Drop for Stack {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.cast(), self.len) };
    }
}

// ---- inputs -------------------------------------------------------------------------------

fn type_of<'a>(types: &'a [TypeInfo], name: &str) -> &'a TypeInfo {
    types.iter().find(|t| t.name == name).unwrap_or_else(|| panic!("harness: no type {name}"))
}
fn bytes_for(types: &[TypeInfo], k: usize, r: &mut Rng) -> Vec<u8> {
    let (kind, name, _) = STEPS[k];
    let of = |n: &str, r: &mut Rng| {
        let t = type_of(types, n);
        if r.chance(2, 3) { (t.make)(r).1 } else { checks::input(t, r).0 }
    };
    let mut b = match (kind, name) {
        ("codec", _) => of(name, r),
        ("variant", _) => {
            let (sel, body) = checks::variant_input(type_of(types, name), r);
            [&sel.to_be_bytes()[..], &body].concat()
        }
        ("buffer", _) => {
            let n = *r.pick(&[0, 1, 20, 64, 65, 132, 1024, 2048, 4096, 65535, 65536, 65537]);
            let n = if r.chance(1, 2) { r.below(n + 1) } else { n };
            r.bytes(n)
        }
        ("structured", n) => {
            let inner = match n {
                "Tpm2bPublic" => "TpmtPublic",
                "Tpm2bCreationData" => "TpmsCreationData",
                _ => "TpmsSensitiveCreate",
            };
            of(inner, r)
        }
        ("client", n) => {
            let sessions = r.below(4) as u8;
            let n_pw = *r.pick(&[0, 5, 64, 65, 200]);
            let pw = r.bytes(n_pw);
            let cmd = (type_of(types, n).make)(r).1;
            let auth = (type_of(types, "TpmsAuthCommand").make)(r).1;
            let resp = match n {
                "GetCapabilityCmd" => of("GetCapabilityResp", r),
                "PcrReadCmd" => of("PcrReadResp", r),
                "GetRandomCmd" => of("GetRandomResp", r),
                _ => vec![],
            };
            let mut reply = vec![0x80, 1 + (sessions > 0) as u8, 0, 0, 0, 0, 0, 0, 0, 0];
            if sessions > 0 {
                reply.extend((resp.len() as u32).to_be_bytes());
            }
            reply.extend(resp);
            for _ in 0..sessions {
                reply.extend([0, 0, 1, 0, 0]);
            }
            let n = reply.len() as u32;
            reply[2..6].copy_from_slice(&n.to_be_bytes());
            match r.below(6) {
                0 => reply.truncate(r.below(n as usize + 1)),
                1 => reply[9] = r.u8(),
                2 => reply[r.below(n as usize)] ^= 1 << r.below(8),
                _ => {}
            }
            let (c, a) = ((cmd.len() as u16).to_be_bytes(), (auth.len() as u16).to_be_bytes());
            let fail = if r.chance(1, 10) { 0x80 } else { 0 };
            [&[sessions | fail, pw.len() as u8, 0, 0, c[0], c[1], a[0], a[1]], &pw[..], &cmd, &auth, &reply].concat()
        }
        (_, "server") => {
            let mut b = vec![];
            for _ in 0..r.range(1, 12) {
                let req = if r.chance(1, 2) { srv::get_random(*r.pick(&[4, 40, 79, 1000, 5000, 20_000, 65_000, 65_535])) } else { srv::request(r).0 };
                let n = if r.chance(1, 2) { 65_535 } else { srv::rsp_len(r, &req).min(65_535) };
                if req.len() < 3000 {
                    b.extend((n as u16).to_be_bytes());
                    b.extend((req.len() as u16).to_be_bytes());
                    b.extend(req);
                }
            }
            b
        }
        (_, "core_codecs") => {
            let n = *r.pick(&[0, 1, 18, 20, 31, 32, 48, 64, 70]);
            let id = *r.pick(&[4u8, 0xB, 0xC, 0xD, 0x12, 0x27, 0x28, 0x29, 0]);
            [&[r.u8() | 0x90, 0, id][..], &r.bytes(n)].concat()
        }
        (_, "numbers") => (0..8).flat_map(|_| (r.u32() >> r.below(30)).to_be_bytes()).collect(),
        (_, "helpers" | "cursor") => {
            let n = *r.pick(&[3, 40, 600]);
            let n = r.below(n);
            r.bytes(n)
        }
        // The elements of a list.
        (_, list) => (type_of(types, list).make)(r).1.split_off(4),
    };
    b.truncate(69_000);
    b
}

fn main() {
    let mut ctx = Ctx::from_args();
    let types = types::all();
    let steps = STEPS.len() as u64;
    let show = |k: usize, b: &[u8]| format!("{} {} on {}", STEPS[k].0, STEPS[k].1, if b.len() > 200 { format!("{}... ({} bytes)", hex(&b[..200]), b.len()) } else { hex(b) });

    let n = ctx.n(2, 700, 40_000);
    ctx.section("heap", steps * n, |c| {
        let k = (c.index % steps) as usize;
        let b = bytes_for(&types, k, &mut c.rng);
        let mut room = vec![0; ROOM];
        c.eval();
        c.distinct(&[&[k as u8, 1], &b[..]].concat());
        match watched(k, &b, &mut room) {
            // A panic is another property's business.
            None => c.note("panicked"),
            Some((_, 0, _)) => {
                c.note(&format!("heap-free:{}", STEPS[k].0));
                c.sample(|| format!("{}: no allocation", show(k, &b)));
            }
            Some((_, n, size)) => c.fail("allocated", format!("{n} allocations, the last of {size} bytes; {}", show(k, &b))),
        }
    });

    let most: Vec<std::sync::atomic::AtomicUsize> = STEPS.iter().map(|_| Default::default()).collect();
    let n = ctx.n(1, 20, 600);
    ctx.section("stack", steps * n, |c| {
        let k = (c.index % steps) as usize;
        let mut st = Stack::new(1 << 20);
        let mut room = vec![0; ROOM];
        for _ in 0..8 {
            let b = bytes_for(&types, k, &mut c.rng);
            c.eval();
            c.distinct(&[&[k as u8, 2], &b[..]].concat());
            let mut fine = false;
            let used = st.touched(&mut || fine = watched(k, &b, &mut room).is_some());
            if !fine {
                c.note("panicked");
                continue;
            }
            most[k].fetch_max(used, std::sync::atomic::Ordering::Relaxed);
            c.note(&format!("stack-measured:{}", STEPS[k].0));
            if used > STACK {
                c.fail("stack", format!("{used} bytes of stack; {}", show(k, &b)));
            }
        }
    });
    if std::env::args().nth(5).is_none() {
        let mut m: Vec<_> = most.iter().zip(STEPS).map(|(m, s)| (m.load(std::sync::atomic::Ordering::Relaxed), s.0, s.1)).collect();
        m.sort();
        m.reverse();
        println!("most stack: {:?}", &m[..5.min(m.len())]);
        if let Some(x) = m.first() {
            ctx.assumptions.push(format!("Stack is measured at opt-level 1; the most seen was {} bytes ({} {}), {STACK} are allowed.", x.0, x.1, x.2));
        }
    }

    // The same steps where there is nothing to allocate from and nobody to ask.
    if let Ok(program) = std::env::var("VERIF_FREESTANDING") {
        let n = ctx.n(2, 400, 12_000);
        ctx.section("freestanding", n, |c| {
            let mut room = vec![0; ROOM];
            let mut work = vec![];
            for _ in 0..100 {
                let k = c.rng.below(STEPS.len());
                let b = bytes_for(&types, k, &mut c.rng);
                // Steps that panic here are left out.
                if let Some((d, ..)) = watched(k, &b, &mut room) {
                    work.push((k, b, format!("{d:016x}")));
                }
            }
            let mut cmd = Command::new(&program);
            cmd.env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: STACK as u64 + 16384, rlim_max: STACK as u64 + 16384 };
                    libc::setrlimit(libc::RLIMIT_STACK, &l);
                    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &l);
                    Ok(())
                });
            }
            let mut p = cmd.spawn().expect("harness: freestanding program");
            let mut to = p.stdin.take().unwrap();
            let mut out = String::new();
            std::thread::scope(|s| {
                let work = &work;
                s.spawn(move || {
                    for (k, b, _) in work {
                        let h = [&(*k as u16).to_be_bytes()[..], &(b.len() as u32).to_be_bytes(), b].concat();
                        if to.write_all(&h).is_err() {
                            break;
                        }
                    }
                });
                let _ = p.stdout.take().unwrap().read_to_string(&mut out);
            });
            let st = p.wait().expect("harness: wait");
            let mut lines = out.lines();
            match lines.next() {
                Some("strict") => c.note("system-calls-given-up"),
                _ => c.note("system-calls-kept"),
            }
            for (k, b, d) in &work {
                c.eval();
                match lines.next() {
                    Some(l) if l == d => {
                        c.note(&format!("freestanding:{}", STEPS[*k].0));
                        c.distinct(&[&[*k as u8, 3], &b[..]].concat());
                    }
                    Some("panic") => return c.fail("freestanding-panic", format!("panics; {}", show(*k, b))),
                    Some(l) => return c.fail("freestanding-differs", format!("{l} instead of {d}; {}", show(*k, b))),
                    None => {
                        let how = match st.signal() {
                            Some(libc::SIGKILL) => "ended for a system call".to_string(),
                            Some(libc::SIGSEGV | libc::SIGBUS) => format!("ran out of {STACK} bytes of stack or left its memory"),
                            s => format!("ended with {:?}, signal {s:?}", st.code()),
                        };
                        return c.fail("freestanding-ended", format!("{how}; {}", show(*k, b)));
                    }
                }
            }
            if lines.next() != Some("end") || st.code() != Some(0) {
                c.fail("freestanding-end", format!("ended with {:?}, signal {:?}", st.code(), st.signal()));
            }
        });
        for k in ["codec", "variant", "buffer", "structured", "client", "step"] {
            ctx.require(&format!("freestanding:{k}"), 50);
        }
    }
    ctx.rule = "Every operation outside of the TCP connection on generated, truncated and corrupted inputs, with an allocator that records requests, on a painted stack, and in a program without std, allocator and system calls.".into();
    for k in ["codec", "variant", "buffer", "structured", "client", "step"] {
        ctx.require(&format!("heap-free:{k}"), 50);
        ctx.require(&format!("stack-measured:{k}"), 50);
    }
    ctx.finish()
}
