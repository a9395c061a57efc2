//! C14-C17: the server.
use tpm2_impl::platform::crypto::{Drbg, DrbgError, drbg_helpers};
use tpm2_impl::platform::*;
use tpm2_impl::{ServerError, TpmContext};
use tpmcheck::srv::*;
use tpmcheck::*;

fn code(rsp: &[u8]) -> u32 {
    u32::from_be_bytes(rsp[6..10].try_into().unwrap())
}

/// Judges `n` returned bytes of `buf` for `req`. Returns the response code.
fn judge(c: &mut Case, req: &[u8], buf: &[u8], n: usize, faulty: bool, what: &str) -> Option<u32> {
    let want = answer(req, buf.len());
    if n > buf.len() {
        c.fail("length-beyond-buffer", format!("{n} of {}; {what}", buf.len()));
        return None;
    }
    if want == Answer::Nothing {
        c.note("answer:nothing");
        if n != 0 {
            c.fail("response-in-tiny-buffer", format!("{n} bytes of {}; {what}", buf.len()));
        }
        return None;
    }
    let rsp = &buf[..n];
    if n < 10 || rsp[..2] != [0x80, 1] || rsp[2..6] != (n as u32).to_be_bytes() {
        c.fail("response-malformed", format!("{}; {what}", hex(rsp)));
        return None;
    }
    let rc = code(rsp);
    if rc != 0 && n != 10 {
        c.fail("error-with-data", format!("{}; {what}", hex(rsp)));
    }
    match want {
        Answer::Code(x) => {
            c.note(match x {
                COMMAND_SIZE => "answer:command-size",
                COMMAND_CODE => "answer:command-code",
                _ => "answer:memory",
            });
            if rc != x {
                c.fail("response-code", format!("{rc:x} instead of {x:x}; {what}"));
            }
        }
        Answer::Random(k) if !faulty => {
            c.note("answer:random");
            if rc != 0 || n != 10 + k {
                c.fail("random-length", format!("code {rc:x}, {n} bytes for {k} requested; {what}"));
            }
        }
        Answer::Random(_) => {}
        Answer::Maybe(k) => {
            if rc == 0 && n != 10 + k {
                c.fail("random-length", format!("{n} bytes for {k} requested; {what}"));
            }
        }
        _ => c.note("answer:any"),
    }
    Some(rc)
}

/// One request, in any of the modes, on a buffer with arbitrary prior contents.
/// Returns the buffer afterwards and the returned length.
trait Mode {
    const NAME: &'static str;
    type D: TpmContextDeps;
    fn separate(ctx: &mut TpmContext<Self::D>, req: &[u8], rsp: &mut Vec<u8>) -> (usize, bool);
    fn in_place(ctx: &mut TpmContext<Self::D>, buf: &mut Vec<u8>, n: usize) -> usize;
}
struct OnSlices<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> Mode for OnSlices<E, N> {
    const NAME: &'static str = "slices";
    type D = Slices<E, N>;
    fn separate(ctx: &mut TpmContext<Self::D>, req: &[u8], rsp: &mut Vec<u8>) -> (usize, bool) {
        (ctx.execute_command_separate(req, &mut rsp[..]), true)
    }
    fn in_place(ctx: &mut TpmContext<Self::D>, buf: &mut Vec<u8>, n: usize) -> usize {
        ctx.execute_command_in_place(&mut buf[..], n)
    }
}
struct OnCustom<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> Mode for OnCustom<E, N> {
    const NAME: &'static str = "custom buffers";
    type D = Custom<E, N>;
    fn separate(ctx: &mut TpmContext<Self::D>, req: &[u8], rsp: &mut Vec<u8>) -> (usize, bool) {
        let q = RevRead::new(req);
        let mut w = RevWrite(RevRead::new(rsp));
        let n = ctx.execute_command_separate(&q, &mut w);
        *rsp = w.0.bytes();
        (n, q.bytes() == req)
    }
    fn in_place(ctx: &mut TpmContext<Self::D>, buf: &mut Vec<u8>, n: usize) -> usize {
        let mut w = RevWrite(RevRead::new(buf));
        let k = ctx.execute_command_in_place(&mut w, n);
        *buf = w.0.bytes();
        k
    }
}

// ---- C14 -------------------------------------------------------------------------------

fn answers<M: Mode>(c: &mut Case) {
    let n = c.rng.range(1, 8);
    answered::<M>(c, n)
}
/// More requests to one context than a 16-bit counter can count.
fn answers_long<M: Mode>(c: &mut Case) {
    let n = if c.tier == Tier::Tiny { 300 } else { 70_000 };
    answered::<M>(c, n);
    c.note("long-history");
}
fn answered<M: Mode>(c: &mut Case, steps: usize) {
    let s = shared(c.rng.u64());
    let Some(Ok(mut ctx)) = c.no_panic("new", "", || context::<M::D>(&s)) else {
        c.fail("context", "no context");
        return;
    };
    // Some histories repeat one request over and over.
    let one = if c.rng.chance(1, 4) { Some(request(&mut c.rng)) } else { None };
    for _ in 0..steps {
        let (req, kind) = match &one {
            Some(x) if x.0.len() < 400 && c.rng.chance(7, 8) => x.clone(),
            _ if steps > 10 => {
                let k = c.rng.below(64);
                random_request(&mut c.rng, k)
            }
            _ => request(&mut c.rng),
        };
        let len = rsp_len(&mut c.rng, &req);
        let mut rsp = c.rng.bytes(len.min(64));
        rsp.resize(len, c.rng.u8());
        c.eval();
        c.note(kind);
        c.distinct(&[&req[..req.len().min(300)], &(len as u32).to_be_bytes()].concat());
        s.lock().unwrap().needs = c.rng.chance(1, 4);
        let what = format!("{} {kind} {} into {len} bytes", M::NAME, hex(&req));
        c.sample(|| what.clone());
        if c.rng.chance(1, 2) {
            c.note("separate");
            let Some((n, kept)) = c.no_panic("execute_command_separate", &what, || M::separate(&mut ctx, &req, &mut rsp)) else { return };
            if !kept {
                c.fail("request-changed", what.clone());
            }
            judge(c, &req, &rsp, n, false, &what);
        } else {
            // In place: the request, then arbitrary bytes.
            c.note("in-place");
            let k = req.len().min(len);
            rsp[..k].copy_from_slice(&req[..k]);
            let claimed = if k == len { *c.rng.pick(&[len, len + 1, len + 100, usize::MAX]) } else { k };
            let Some(n) = c.no_panic("execute_command_in_place", &format!("claimed {claimed}; {what}"), || M::in_place(&mut ctx, &mut rsp, claimed))
            else {
                return;
            };
            judge(c, &req[..k], &rsp, n, false, &format!("in place, claimed {claimed}; {what}"));
        }
        s.lock().unwrap().events.clear();
    }
}

/// The same kind of request more often than 8 and 16 bits can count, on one context
/// that answers all the other kinds as before.
fn counted<M: Mode>(c: &mut Case) {
    let s = shared(c.rng.u64());
    let Some(Ok(mut ctx)) = c.no_panic("new", "", || context::<M::D>(&s)) else {
        c.fail("context", "no context");
        return;
    };
    let most = match c.tier {
        Tier::Tiny => 270,
        Tier::Quick => 66_000,
        Tier::Thorough => 600_000,
    };
    let mut kinds = vec!["valid", "size", "code", "memory", "fill", "reseed", "tiny"];
    for i in (1..kinds.len()).rev() {
        kinds.swap(i, c.rng.below(i + 1));
    }
    let all = kinds.clone();
    for (i, kind) in kinds.into_iter().flat_map(|k| [(most, k)].into_iter().chain(all.iter().map(|x| (2, *x)))).flat_map(|(n, k)| (0..n).map(move |i| (i, k))) {
        let k = i % 5;
        let mut req = get_random(k);
        let mut len = 24;
        match kind {
            "size" => req[5] ^= 1,
            "code" => req[9] ^= 1,
            "memory" => len = 12.min(9 + k),
            "tiny" => len = 9,
            _ => {}
        }
        if kind == "memory" {
            req[11] = 6;
        }
        {
            let mut g = s.lock().unwrap();
            g.events.clear();
            g.needs = kind == "reseed";
            g.fail_reseed = if kind == "reseed" { vec![g.reseeds] } else { vec![] };
            g.fail_fill = if kind == "fill" { vec![g.fills] } else { vec![] };
        }
        c.eval();
        let mut buf = vec![0; len];
        let inp = i % 2 == 1 && req.len() <= len;
        let what = || format!("{} request {i} of its kind ({kind}) {} into {len}, in place {inp}", M::NAME, hex(&req));
        let n = call(|| {
            if inp {
                buf[..req.len()].copy_from_slice(&req);
                M::in_place(&mut ctx, &mut buf, req.len())
            } else {
                M::separate(&mut ctx, &req, &mut buf).0
            }
        });
        let n = match n {
            Ok(n) => n,
            Err(m) => return c.fail("panic:counted", format!("{m}; {}", what())),
        };
        let faulty = s.lock().unwrap().events.iter().any(|e| matches!(e, Ev::Fill { ok: false, .. } | Ev::Reseed { ok: false, .. }));
        if !faulty {
            let w = answer(&req, len);
            let right = match w {
                Answer::Code(x) => n == 10 && buf[..6] == [0x80, 1, 0, 0, 0, 10] && code(&buf) == x,
                Answer::Random(k) => n == 10 + k && buf[..10] == [0x80, 1, 0, 0, 0, 10 + k as u8, 0, 0, 0, 0],
                Answer::Nothing => n == 0,
                _ => true,
            };
            if !right {
                return c.fail("counted", format!("{} is not {w:?}; {}", hex(&buf[..n.min(len)]), what()));
            }
            c.note("counted");
        } else if n != 10 || code(&buf) == 0 {
            return c.fail("counted-fault", format!("{} despite a failing generator; {}", hex(&buf[..n.min(len)]), what()));
        } else {
            c.note("counted-faults");
        }
    }
    c.note("counted-history");
    c.distinct(all.join(",").as_bytes());
}

// ---- C15 -------------------------------------------------------------------------------

fn modes_agree<A: Mode, B: Mode>(c: &mut Case) {
    let seed = c.rng.u64();
    let sh = [shared(seed), shared(seed), shared(seed)];
    let (Ok(mut sep), Ok(mut ina), Ok(mut inb)) = (context::<A::D>(&sh[0]), context::<A::D>(&sh[1]), context::<B::D>(&sh[2])) else {
        c.fail("context", "no context");
        return;
    };
    for step in 0..c.rng.range(1, 6) {
        let (mut req, kind) = request(&mut c.rng);
        let len = match c.rng.below(8) {
            0 => req.len(),
            1 => req.len().saturating_sub(1),
            2 => c.rng.below(req.len() + 1),
            _ => rsp_len(&mut c.rng, &req),
        };
        let k = req.len().min(len);
        req.truncate(k);
        let claimed = if k == len { *c.rng.pick(&[len, len + 1, len + 7, usize::MAX]) } else { k };
        let needs = c.rng.chance(1, 4);
        let fault = c.rng.chance(1, 10);
        for s in &sh {
            let mut g = s.lock().unwrap();
            g.needs = needs;
            g.fail_fill = if fault { vec![g.fills] } else { vec![] };
            g.events.clear();
        }
        c.eval();
        c.note(kind);
        c.distinct(&[&req[..req.len().min(300)], &(len as u32).to_be_bytes(), &(claimed as u32).to_be_bytes()].concat());
        let what = format!("step {step} {kind} {} in a buffer of {len}, claimed {claimed}", hex(&req));
        c.sample(|| what.clone());
        let mut bufs: Vec<Vec<u8>> = (0..3)
            .map(|_| {
                let f = c.rng.u8();
                let mut b = c.rng.bytes(len.min(48));
                b.resize(len, f);
                b
            })
            .collect();
        bufs[1][..k].copy_from_slice(&req);
        bufs[2][..k].copy_from_slice(&req);
        // A tail that continues the request plausibly.
        if len > k && c.rng.chance(1, 2) {
            let full = get_random(c.rng.below(40));
            for i in k..len.min(12) {
                bufs[1][i] = full[i];
            }
        }
        let before = bufs.clone();
        let Some((n0, kept)) = c.no_panic("execute_command_separate", &what, || A::separate(&mut sep, &req, &mut bufs[0])) else { return };
        if !kept {
            c.fail("request-changed", what.clone());
        }
        let Some(n1) = c.no_panic("execute_command_in_place", &what, || A::in_place(&mut ina, &mut bufs[1], claimed)) else { return };
        let Some(n2) = c.no_panic("execute_command_in_place", &what, || B::in_place(&mut inb, &mut bufs[2], claimed)) else { return };
        let ns = [n0, n1, n2];
        if ns.iter().any(|n| *n > len) {
            c.fail("length-beyond-buffer", format!("{ns:?}; {what}"));
            return;
        }
        if bufs[0][..n0] != bufs[1][..n1] {
            c.fail("modes-differ", format!("separate {} in place {}; {what}", hex(&bufs[0][..n0]), hex(&bufs[1][..n1])));
            return;
        }
        if bufs[1][..n1] != bufs[2][..n2] {
            c.fail("tail-matters", format!("{} and {} (tails {} and {}); {what}", hex(&bufs[1][..n1]), hex(&bufs[2][..n2]), hex(&before[1][k..]), hex(&before[2][k..])));
            return;
        }
        c.note("agreed");
        c.note(if n0 == 0 { "agreed:nothing" } else if code(&bufs[0]) == 0 { "agreed:success" } else { "agreed:error" });
        if claimed > len {
            c.note("claimed-too-long");
        }
        // A failed generate call may have left half of its output.
        let half = sh[0].lock().unwrap().events.iter().any(|e| matches!(e, Ev::Fill { ok: false, .. }));
        if !half {
            for i in 0..3 {
                if bufs[i][ns[i]..] != before[i][ns[i]..] {
                    let at = (ns[i]..len).find(|x| bufs[i][*x] != before[i][*x]).unwrap();
                    c.fail("tail-changed", format!("buffer {i} at {at}, response of {}; {what}", ns[i]));
                }
            }
            c.note("tail-kept");
        }
    }
}

/// The slice buffers and the provided methods against a model.
fn buffers(c: &mut Case) {
    let len = c.rng.below(40);
    let mut b = c.rng.bytes(len);
    for _ in 0..8 {
        c.eval();
        let at = match c.rng.below(6) {
            0 => usize::MAX,
            1 => usize::MAX - c.rng.below(8),
            2 => len,
            3 => isize::MAX as usize + c.rng.below(3),
            _ => c.rng.below(len + 4),
        };
        let n = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.below(9),
            _ => c.rng.below(len + 3),
        };
        let fits = at.checked_add(n).is_some_and(|e| e <= len);
        let what = format!("{n} bytes at {at} of {}", hex(&b));
        c.distinct(&[&at.to_be_bytes()[..], &n.to_be_bytes()[..], &[len as u8]].concat());
        let rev = RevRead::new(&b);
        if TpmReadBuffer::len(&b[..]) != len || TpmReadBuffer::is_empty(&b[..]) != (len == 0) || rev.is_empty() != (len == 0) {
            c.fail("buffer-len", what.clone());
        }
        let mut out = vec![0x77u8; n];
        let Some(r) = c.no_panic("read_into", &what, || b[..].read_into(at, &mut out)) else { return };
        if r.is_ok() != fits || (fits && out != b[at..at + n]) || (!fits && out.iter().any(|x| *x != 0x77)) {
            c.fail("read_into", format!("{r:?} {}; {what}", hex(&out)));
        }
        c.note(if fits { "read:in" } else { "read:out" });
        let Some((x, y, p, q)) = c.no_panic("read_be", &what, || (b[..].read_be_u16(at), b[..].read_be_u32(at), rev.read_be_u16(at), rev.read_be_u32(at))) else { return };
        let w = |k: usize| at.checked_add(k).filter(|e| *e <= len).map(|e| b[at..e].iter().fold(0u32, |a, x| (a << 8) | *x as u32));
        if x.ok().map(u32::from) != w(2) || y.ok() != w(4) || p.ok().map(u32::from) != w(2) || q.ok() != w(4) {
            c.fail("read_be", format!("{x:x?} {y:x?} {p:x?} {q:x?}; {what}"));
        }
        let data = c.rng.bytes(n);
        let mut model = b.clone();
        if fits {
            model[at..at + n].copy_from_slice(&data);
        }
        if c.rng.chance(1, 2) {
            let Some(r) = c.no_panic("write", &what, || b[..].write(at, &data)) else { return };
            if r.is_ok() != fits || b != model {
                c.fail("write", format!("{r:?} now {}; {what}", hex(&b)));
            }
            c.note("write");
        } else {
            let mut called = None;
            let old: Vec<u8> = if fits { b[at..at + n].to_vec() } else { vec![] };
            let mut seen = vec![];
            let Some(r) = c.no_panic("write_callback", &what, || {
                b[..].write_callback(at, n, |d| {
                    called = Some(d.len());
                    seen = d.to_vec();
                    d.copy_from_slice(&data[..d.len()]);
                })
            }) else {
                return;
            };
            if r.is_ok() != fits || called != fits.then_some(n) || b != model || seen != old {
                c.fail("write_callback", format!("{r:?} called with {called:?}; {what}"));
            }
            c.note("write-callback");
        }
    }
}

// ---- C16 -------------------------------------------------------------------------------

struct Rule<'a> {
    what: &'a str,
    e: usize,
}

/// The events of one request against the statement.
fn discipline(c: &mut Case, ev: &[Ev], req: &[u8], buf: &[u8], n: usize, r: &Rule) {
    let what = r.what;
    let brief = || {
        ev.iter()
            .map(|e| match e {
                Ev::EntropyOpened => "open".into(),
                Ev::Entropy(b) => format!("entropy({})", b.len()),
                Ev::Instantiate { ok, .. } => format!("instantiate({ok})"),
                Ev::Reseed { ok, .. } => format!("reseed({ok})"),
                Ev::Asked(b) => format!("asked({b})"),
                Ev::Fill { out, ok } => format!("fill({},{ok})", out.len()),
                Ev::Int => "int".into(),
            })
            .collect::<Vec<String>>()
            .join(" ")
    };
    let want = answer(req, buf.len());
    let fills: Vec<_> = ev.iter().filter_map(|e| if let Ev::Fill { out, ok } = e { Some((out, *ok)) } else { None }).collect();
    let failed = ev.iter().any(|e| matches!(e, Ev::Fill { ok: false, .. } | Ev::Reseed { ok: false, .. }));
    if ev.iter().any(|e| matches!(e, Ev::EntropyOpened | Ev::Instantiate { .. })) {
        c.fail("instantiated-again", format!("{}; {what}", brief()));
    }
    // Reseeding uses the entropy drawn last, in full, once.
    let mut pool: Vec<u8> = vec![];
    let mut must_reseed = false;
    let mut asked_yes = false;
    let mut reseeds = 0;
    for e in ev {
        match e {
            Ev::Entropy(b) => {
                if !asked_yes {
                    c.fail("entropy-unasked", format!("{}; {what}", brief()));
                }
                pool.extend_from_slice(b)
            }
            Ev::Asked(b) => {
                must_reseed = *b;
                asked_yes |= *b;
            }
            Ev::Reseed { ent, ok } => {
                c.note("reseed");
                reseeds += 1;
                if reseeds > 1 {
                    c.fail("reseeded-twice", format!("{}; {what}", brief()));
                }
                if !asked_yes {
                    c.fail("reseeded-unasked", format!("{}; {what}", brief()));
                }
                if ent.len() != r.e || pool.len() < r.e || *ent != pool[pool.len() - r.e..] {
                    c.fail("reseed-entropy", format!("reseeded with {} after drawing {}; {}; {what}", hex(ent), hex(&pool), brief()));
                }
                pool.clear();
                if *ok {
                    must_reseed = false;
                }
            }
            Ev::Fill { ok, .. } => {
                if must_reseed {
                    c.fail("generated-without-reseeding", format!("{}; {what}", brief()));
                }
                let _ = ok;
            }
            _ => {}
        }
    }
    // Entropy is there to reseed with, and no answer shows it.
    if !pool.is_empty() {
        c.fail("entropy-unused", format!("{}; {what}", brief()));
    }
    for e in ev {
        if let Ev::Entropy(b) = e {
            if b.len() >= 8 && buf.windows(8).any(|w| w == &b[b.len() - 8..] || w == &b[..8]) {
                c.fail("entropy-shown", format!("{} in {}; {what}", hex(b), hex(buf)));
            }
        }
    }
    let rc = if n >= 10 { code(buf) } else { 1 };
    if failed {
        c.note("fault:seen");
        if rc == 0 {
            c.fail("success-after-failure", format!("{} from {}; {what}", hex(&buf[..n]), brief()));
        }
        if let Answer::Random(_) = want {
            if n != 10 {
                c.fail("failure-response", format!("{} from {}; {what}", hex(&buf[..n]), brief()));
            }
        }
        return;
    }
    match want {
        Answer::Random(k) => {
            if rc != 0 || n != 10 + k {
                c.fail("refused", format!("{} from {}; {what}", hex(&buf[..n]), brief()));
                return;
            }
            let asked = ev.iter().position(|e| matches!(e, Ev::Asked(_)));
            let filled = ev.iter().position(|e| matches!(e, Ev::Fill { .. }));
            if asked.is_none() || (filled.is_some() && asked > filled) {
                c.fail("not-asked", format!("{}; {what}", brief()));
            }
            let one = if k == 0 { fills.len() <= 1 } else { fills.len() == 1 };
            if !one || fills.iter().any(|f| f.0.len() != k) || ev.contains(&Ev::Int) {
                c.fail("generate-calls", format!("{} for {k} bytes; {what}", brief()));
            } else if k > 0 && buf[10..n] != fills[0].0[..] {
                c.fail("other-bytes", format!("{} instead of {}; {what}", hex(&buf[10..n]), hex(fills[0].0)));
            } else {
                c.note("generated");
            }
        }
        Answer::Code(_) | Answer::Nothing => {
            c.note("refused-request");
            if !fills.is_empty() || ev.contains(&Ev::Int) {
                c.fail("output-consumed", format!("{} for a refused request; {what}", brief()));
            }
        }
        _ => {}
    }
}

fn created(c: &mut Case, s: &Shared, ok: bool, r: &Result<(), ServerError>, e: usize, n: usize) {
    let g = s.lock().unwrap();
    let stream: Vec<u8> = (0..(e + n) as u64).map(|i| entropy_byte(g.seed, i)).collect();
    let inst: Vec<_> = g.events.iter().filter(|x| matches!(x, Ev::Instantiate { .. })).collect();
    let opened = g.events.iter().filter(|x| **x == Ev::EntropyOpened).count();
    let what = format!("entropy {e}, nonce {n}: {:?}", g.events);
    c.distinct(&[&g.seed.to_be_bytes()[..], &[e as u8, n as u8]].concat());
    if inst.len() != 1 || opened != 1 {
        c.fail("instantiations", what);
        return;
    }
    let Ev::Instantiate { ent, nonce, .. } = inst[0] else { unreachable!() };
    if ent[..] != stream[..e] || nonce[..] != stream[e..] || g.drawn != (e + n) as u64 {
        c.fail("seed-material", format!("entropy {} nonce {} of the stream {}, {} drawn; {what}", hex(ent), hex(nonce), hex(&stream), g.drawn));
    }
    match (ok, r) {
        (true, Ok(())) => c.note("created"),
        (false, Err(ServerError::DrbgError)) => c.note("fault:instantiate"),
        _ => c.fail("creation-result", format!("{r:?}; {what}")),
    }
}

fn history<M: Mode>(c: &mut Case, e: usize, nn: usize, enumerate: bool) {
    histories::<M>(c, e, nn, enumerate, false)
}
fn histories<M: Mode>(c: &mut Case, e: usize, nn: usize, enumerate: bool, long: bool) {
    let s = shared(c.rng.u64());
    let fail_inst = !enumerate && !long && c.rng.chance(1, 12);
    let steps;
    {
        let mut g = s.lock().unwrap();
        g.fail_inst = fail_inst;
        g.always = !enumerate && c.rng.chance(1, 6);
        if enumerate {
            // Every single fault and every pair of faults in a history of six
            // requests: 13 positions, the last meaning none.
            steps = 6;
            let (a, b) = (c.index % 13, c.index / 13 % 13);
            for p in [a, b] {
                match p {
                    0..6 => g.fail_fill.push(p),
                    6..12 => g.fail_reseed.push(p - 6),
                    _ => {}
                }
            }
        } else if c.rng.chance(1, 8) {
            // Streaks of failures, of either call, somewhere in a longer history.
            steps = if long { 70_000 } else { c.rng.range(20, 300) };
            let span = |r: &mut Rng, v: &mut Vec<u64>| {
                let most = if r.chance(1, 4) { 280 } else { 20 };
                let (at, n) = (r.below(20) as u64, r.below(most) as u64);
                v.extend(at..at + n);
            };
            if c.rng.chance(3, 4) {
                span(&mut c.rng, &mut g.fail_fill);
            }
            if c.rng.chance(3, 4) {
                span(&mut c.rng, &mut g.fail_reseed);
            }
        } else {
            steps = if long { 70_000 } else { c.rng.range(1, 24) };
            for _ in 0..c.rng.below(5) {
                let p = c.rng.below(12) as u64;
                g.fail_fill.push(p);
                let p = c.rng.below(8) as u64;
                g.fail_reseed.push(p);
            }
        }
    }
    let Some(r) = c.no_panic("new", "", || context::<M::D>(&s)) else { return };
    let (r, ctx) = match r {
        Ok(x) => (Ok(()), Some(x)),
        Err(x) => (Err(x), None),
    };
    c.eval();
    created(c, &s, !fail_inst, &r, e, nn);
    let Some(mut ctx) = ctx else { return };
    let mask = c.index / 169; // enumerated reseed patterns
    let mut trace: Vec<String> = vec![];
    for step in 0..steps {
        let (req, kind) = if enumerate {
            (get_random(4 + step), "request:get-random")
        } else if c.rng.chance(1, 3) {
            request(&mut c.rng)
        } else {
            let k = c.rng.below(70);
            (get_random(k), "request:get-random")
        };
        let len = if enumerate || c.rng.chance(2, 3) { 128 } else { rsp_len(&mut c.rng, &req) };
        let needs = if enumerate { mask >> step & 1 == 1 } else { c.rng.chance(1, 3) };
        let (failing, was);
        {
            let mut g = s.lock().unwrap();
            g.needs |= needs;
            g.events.clear();
            was = g.needs || g.always;
            let few = |v: &[u64]| if v.len() < 12 { format!("{v:?}") } else { format!("{:?}..{:?}", v.first(), v.last()) };
            failing = (few(&g.fail_fill), few(&g.fail_reseed), g.fills, g.reseeds);
        }
        c.eval();
        let mut buf = vec![0xEEu8; len];
        if step < 300 {
            trace.push(format!("{}{}", hex(&req[..req.len().min(12)]), if was { "!" } else { "" }));
        }
        let what = format!("{} step {step}, wants reseed {was}, failing fills/reseeds at {failing:?}, {kind} {} into {len}", M::NAME, hex(&req));
        let inp = step % 2 == 1 && req.len() <= len;
        let out = if inp {
            buf[..req.len()].copy_from_slice(&req);
            c.no_panic("execute_command_in_place", &what, || M::in_place(&mut ctx, &mut buf, req.len()))
        } else {
            c.no_panic("execute_command_separate", &what, || M::separate(&mut ctx, &req, &mut buf).0)
        };
        let Some(n) = out else { return };
        let ev = s.lock().unwrap().events.clone();
        let faulty = ev.iter().any(|e| matches!(e, Ev::Fill { ok: false, .. } | Ev::Reseed { ok: false, .. }));
        judge(c, &req, &buf, n, faulty, &what);
        discipline(c, &ev, &req, &buf, n, &Rule { what: &what, e });
        if was && ev.iter().any(|e| matches!(e, Ev::Fill { ok: true, .. })) {
            c.note("reseeded-then-generated");
        }
        if !faulty && step > 0 {
            c.note("served-after-history");
        }
    }
    c.distinct(trace.join(",").as_bytes());
    c.sample(|| format!("{} requests: {}", M::NAME, trace.join(",")));
}

// ---- C17 -------------------------------------------------------------------------------

/// A generator that records how it is called.
struct Logged {
    rng: Rng,
    calls: Vec<(u8, Vec<u8>, u64)>,
    fail_at: usize,
    out: Vec<u8>,
}
impl Logged {
    fn call(&mut self, w: u8, a: &[u8]) -> Result<u64, DrbgError> {
        let i = self.calls.len();
        let v = self.rng.u64();
        self.calls.push((w, a.to_vec(), v));
        if i == self.fail_at { Err(DrbgError) } else { Ok(v) }
    }
}
impl Drbg for Logged {
    type Entropy = [u8; 4];
    type Nonce = [u8; 4];
    fn instantiate(_: &[u8; 4], _: &[u8; 4], _: &[u8]) -> Result<Self, DrbgError> {
        panic!("harness: not used")
    }
    fn reseed(&mut self, _: &[u8; 4], _: &[u8]) -> Result<(), DrbgError> {
        self.call(b'r', &[]).map(|_| ())
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        self.call(4, a).map(|v| v as u32)
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        self.call(8, a)
    }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> {
        let r = self.call(b'f', a);
        for x in d.iter_mut() {
            *x = self.rng.u8();
        }
        self.out = d.to_vec();
        r.map(|_| ())
    }
    fn requires_reseeding(&mut self) -> bool {
        self.calls.push((b'q', vec![], 0));
        false
    }
}

fn helpers(c: &mut Case) {
    let seed = c.rng.u64();
    let add = {
        let n = *c.rng.pick(&[0usize, 0, 1, 3, 32, 200]);
        c.rng.bytes(n)
    };
    let len = match c.rng.below(6) {
        0..=3 => (c.index % 80) as usize,
        4 => c.rng.below(400),
        _ => c.rng.below(70_000) >> c.rng.below(12),
    };
    let whole = len / 8;
    let blocks = whole + (len % 8 != 0) as usize;
    let fail_at = match c.rng.below(4) {
        0 => usize::MAX,
        1 => 0,
        2 => c.rng.below(blocks + 2),
        _ => blocks.saturating_sub(1) + c.rng.below(2),
    };
    let g = || Logged { rng: Rng::new(seed), calls: vec![], fail_at, out: vec![] };
    let what = format!("length {len}, additional input of {}, failing call {fail_at:x}", add.len());
    let key = |k: u8| [&[k, add.len() as u8][..], &(len as u32).to_be_bytes(), &(fail_at as u32).to_be_bytes()].concat();
    // The first call gets the additional input, the others none.
    let inputs = |c: &mut Case, l: &Logged, f: &str| {
        for (i, (_, a, _)) in l.calls.iter().enumerate() {
            let want: &[u8] = if i == 0 { &add } else { &[] };
            if a != want {
                c.fail("additional-input", format!("{f}: call {i} got {}; {what}", hex(a)));
                return;
            }
        }
        c.note("inputs-checked");
    };
    let ended = |c: &mut Case, l: &Logged, f: &str, ok: bool, n: usize| {
        let failed = l.fail_at < n;
        if ok == failed || l.calls.len() != if failed { l.fail_at + 1 } else { n } {
            c.fail("calls", format!("{f}: ok={ok} after {} calls; {what}", l.calls.len()));
        }
        c.note(if failed { "fault:generator" } else { "no-fault" });
    };
    c.eval();
    c.distinct(&key(0));
    let mut l = g();
    let mut d = vec![0x99u8; len + 16];
    if let Some(r) = c.no_panic("fill_bytes_via_next", &what, || drbg_helpers::fill_bytes_via_next(&mut l, &add, &mut d[..len])) {
        inputs(c, &l, "fill_bytes_via_next");
        ended(c, &l, "fill_bytes_via_next", r.is_ok(), blocks);
        let tail = len % 8;
        for (i, (w, ..)) in l.calls.iter().enumerate() {
            let want = if i < whole || tail > 4 { 8 } else { 4 };
            if *w != want {
                c.fail("block-kind", format!("call {i} asks for {w}, not {want}; {what}"));
                return;
            }
        }
        if r.is_ok() {
            let all: Vec<u8> = l.calls.iter().flat_map(|(w, _, v)| v.to_le_bytes()[..(*w as usize).min(8)].to_vec()).collect();
            if all.len() < len || d[..len] != all[..len] {
                c.fail("filled-bytes", format!("{} from blocks {}; {what}", hex(&d[..len]), hex(&all)));
            }
            c.sample(|| format!("fill {what}: {} calls", l.calls.len()));
            c.note("filled");
        }
        if !all_are(&d[len..], 0x99) {
            c.fail("wrote-outside", what.clone());
        }
    }
    c.eval();
    let mut l = g();
    if let Some(r) = c.no_panic("next_u64_via_u32", &what, || drbg_helpers::next_u64_via_u32(&mut l, &add)) {
        inputs(c, &l, "next_u64_via_u32");
        ended(c, &l, "next_u64_via_u32", r.is_ok(), 2);
        if l.calls.iter().any(|x| x.0 != 4) {
            c.fail("block-kind", format!("next_u64_via_u32: {:?}", l.calls));
        }
        if let Ok(v) = r {
            let want = (l.calls[0].2 & 0xFFFF_FFFF) | (l.calls[1].2 << 32);
            if v != want {
                c.fail("integer", format!("next_u64_via_u32: {v:x} instead of {want:x}"));
            }
            c.note("integer:u64-of-u32");
        }
    }
    c.eval();
    let mut l = g();
    if let Some(r) = c.no_panic("next_u32_via_fill", &what, || drbg_helpers::next_u32_via_fill(&mut l, &add)) {
        inputs(c, &l, "next_u32_via_fill");
        ended(c, &l, "next_u32_via_fill", r.is_ok(), 1);
        if let Ok(v) = r {
            if l.out.len() != 4 || v.to_le_bytes()[..] != l.out[..] {
                c.fail("integer", format!("next_u32_via_fill: {v:x} from {}", hex(&l.out)));
            }
            c.note("integer:u32-of-fill");
        }
    }
    c.eval();
    let mut l = g();
    if let Some(r) = c.no_panic("next_u64_via_fill", &what, || drbg_helpers::next_u64_via_fill(&mut l, &add)) {
        inputs(c, &l, "next_u64_via_fill");
        ended(c, &l, "next_u64_via_fill", r.is_ok(), 1);
        if let Ok(v) = r {
            if l.out.len() != 8 || v.to_le_bytes()[..] != l.out[..] {
                c.fail("integer", format!("next_u64_via_fill: {v:x} from {}", hex(&l.out)));
            }
            c.note("integer:u64-of-fill");
        }
    }
}

fn main() {
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C14" => {
            ctx.rule = "sequences of well-formed, damaged and random requests in both modes, with slices and custom buffers of every length; distinct by request and buffer length".into();
            let n = ctx.n(30, 300_000, 5_000_000);
            ctx.section("slices", n, answers::<OnSlices<32, 16>>);
            let n = ctx.n(20, 150_000, 2_000_000);
            ctx.section("custom", n, answers::<OnCustom<32, 16>>);
            let n = ctx.n(1, 8, 64);
            ctx.section("long", n, answers_long::<OnSlices<32, 16>>);
            ctx.require("long-history", 2);
            let n = ctx.n(1, 8, 32);
            ctx.section("counted", n, |c| if c.index % 4 == 3 { counted::<OnCustom<32, 16>>(c) } else { counted::<OnSlices<32, 16>>(c) });
            ctx.require("counted-history", 2);
            for k in ["answer:nothing", "answer:command-size", "answer:command-code", "answer:memory", "answer:random", "separate", "in-place"] {
                ctx.require(k, 10_000);
            }
        }
        "C15" => {
            ctx.rule = "the same sequences of requests in three contexts with equal seeds: separate, in place, and in place with other bytes behind the request; distinct by request, buffer length and claimed length".into();
            let n = ctx.n(20, 200_000, 3_000_000);
            ctx.section("slices", n, modes_agree::<OnSlices<32, 16>, OnSlices<32, 16>>);
            let n = ctx.n(20, 100_000, 1_500_000);
            ctx.section("custom", n, modes_agree::<OnSlices<32, 16>, OnCustom<32, 16>>);
            let n = ctx.n(30, 200_000, 3_000_000);
            ctx.section("buffers", n, buffers);
            for k in ["agreed:success", "agreed:error", "agreed:nothing", "claimed-too-long", "tail-kept", "read:in", "read:out", "write", "write-callback"] {
                ctx.require(k, 5_000);
            }
        }
        "C16" => {
            ctx.rule = "histories of requests with injected DRBG failures and reseed demands, judged from the recorded platform calls; distinct by history".into();
            // 13 x 13 fault pairs, 64 reseed patterns, two seed sizes.
            let n = if ctx.tier == Tier::Tiny { 40 } else { 169 * 64 };
            ctx.section("enumerated", n, |c| history::<OnSlices<32, 16>>(c, 32, 16, true));
            let n = if ctx.tier == Tier::Tiny { 10 } else { 169 * 64 };
            ctx.section("enumerated-wide", n, |c| history::<OnCustom<48, 7>>(c, 48, 7, true));
            let n = ctx.n(20, 100_000, 2_000_000);
            ctx.section("histories", n, |c| history::<OnSlices<32, 16>>(c, 32, 16, false));
            let n = ctx.n(10, 40_000, 1_000_000);
            ctx.section("histories-wide", n, |c| history::<OnCustom<55, 40>>(c, 55, 40, false));
            let n = ctx.n(10, 40_000, 500_000);
            ctx.section("histories-tiny", n, |c| history::<OnSlices<1, 0>>(c, 1, 0, false));
            let n = ctx.n(0, 8, 64);
            ctx.section("long", n, |c| histories::<OnSlices<32, 16>>(c, 32, 16, false, true));
            let n = ctx.n(0, 8, 32);
            ctx.section("counted", n, counted::<OnSlices<32, 16>>);
            ctx.require("counted-faults", 100_000);
            for k in ["created", "fault:instantiate", "fault:seen", "generated", "reseed", "reseeded-then-generated", "refused-request", "served-after-history"] {
                ctx.require(k, 1000);
            }
        }
        "C17" => {
            ctx.rule = "each helper on recording generators over lengths, additional inputs and failing calls; distinct by length, input length and failing call".into();
            let n = ctx.n(90, 400_000, 6_000_000);
            ctx.section("helpers", n, helpers);
            for k in ["filled", "fault:generator", "no-fault", "inputs-checked", "integer:u64-of-u32", "integer:u32-of-fill", "integer:u64-of-fill"] {
                ctx.require(k, 1000);
            }
        }
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
