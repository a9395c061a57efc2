//! C08-C10: the client's command framing, response handling and sessions.
use std::cell::RefCell;
use tpm2_client::connection::Connection;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::{TpmRcError, TssError, TssTcsError};
use tpm2_rs_base::marshal::UnmarshalBuf;
use tpm2_rs_base::*;
use tpmcheck::cmds::*;
use tpmcheck::shape::*;
use tpmcheck::types::*;
use tpmcheck::*;

macro_rules! each_cmd {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 9 {
            0 => $f::<GetCapabilityCmd>($($a),*),
            1 => $f::<PcrReadCmd>($($a),*),
            2 => $f::<GetRandomCmd>($($a),*),
            3 => $f::<StartupCmd>($($a),*),
            4 => $f::<WideCmd>($($a),*),
            5 => $f::<BareCmd>($($a),*),
            8 => $f::<NilCmd>($($a),*),
            6 => $f::<RichCmd>($($a),*),
            _ => $f::<IntCmd>($($a),*),
        }
    };
}

fn auth_response(r: &mut Rng, s: &Sess, o: &mut Vec<u8>) -> TpmsAuthResponse {
    if matches!(s.kind, Kind::Password(_)) && r.chance(4, 5) {
        o.extend_from_slice(&[0, 0, 1, 0, 0]);
        let mut u = UnmarshalBuf::new(&[0, 0, 1, 0, 0]);
        use tpm2_rs_base::marshal::Marshalable;
        return TpmsAuthResponse::try_unmarshal(&mut u).expect("harness: password response");
    }
    TpmsAuthResponse::arb(r, o)
}

/// The request the specification asks for.
fn request<C: TestCmd>(handles: &[u8], sessions: &[Sess], params: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend_from_slice(if sessions.is_empty() { &[0x80, 1] } else { &[0x80, 2] });
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&C::CODE.to_be_bytes());
    o.extend_from_slice(handles);
    if !sessions.is_empty() {
        let n: usize = sessions.iter().map(|s| s.bytes.len()).sum();
        o.extend_from_slice(&(n as u32).to_be_bytes());
        for s in sessions {
            o.extend_from_slice(&s.bytes);
        }
    }
    o.extend_from_slice(params);
    let n = o.len() as u32;
    o[2..6].copy_from_slice(&n.to_be_bytes());
    o
}

fn some_sessions<'a>(r: &mut Rng, n: usize, log: &'a Log) -> Vec<Sess<'a>> {
    let bad = if n > 0 && r.chance(1, 4) { Some(r.below(n)) } else { None };
    let also = r.chance(1, 4);
    (0..n).map(|i| session(r, i, log, bad.is_some_and(|b| i == b || (also && i > b)))).collect()
}

fn header(tag: u16, size: u32, rc: u32) -> Vec<u8> {
    [&tag.to_be_bytes()[..], &size.to_be_bytes(), &rc.to_be_bytes()].concat()
}

// ---- C08 -------------------------------------------------------------------------------

fn framing<C: TestCmd>(c: &mut Case) {
    let log: Log = RefCell::new(vec![]);
    let n = c.rng.below(4);
    let sess = some_sessions(&mut c.rng, n, &log);
    let mut hb = vec![];
    let h = C::Handles::arb(&mut c.rng, &mut hb);
    let auth: usize = if n == 0 { 0 } else { 4 + sess.iter().map(|s| s.bytes.len()).sum::<usize>() };
    let fixed = 10 + hb.len() + auth;
    let total = match c.rng.below(4) {
        0 => c.rng.range(4090, 4102),
        1 => 4096 + c.rng.below(2),
        2 => c.rng.range(fixed, 4600),
        _ => fixed + 9 + c.rng.below(80),
    };
    let (cmd, pb) = C::sized(&mut c.rng, total.saturating_sub(fixed));
    let want = request::<C>(&hb, &sess, &pb);
    let what = format!("{} with {n} sessions, handles {}, {} parameter bytes, {} in all", C::NAME, hex(&hb), pb.len(), want.len());
    let fits = want.len() <= 4096;
    c.eval();
    c.distinct(&[C::NAME.as_bytes(), &want].concat());
    c.sample(|| format!("{what}: {}", hex(&want)));
    c.note(if fits { "fits" } else { "too-large" });
    c.note(["sessions:0", "sessions:1", "sessions:2", "sessions:3"][n]);
    let fail = if c.rng.chance(1, 3) { Some(c.rng.u64()) } else { None };
    let mut rb = vec![];
    let mut rh = vec![];
    C::RespHandles::arb(&mut c.rng, &mut rh);
    rb.extend_from_slice(&rh);
    let (_, pbr) = C::sized_resp(&mut c.rng, 40);
    if n > 0 {
        rb.extend_from_slice(&(pbr.len() as u32).to_be_bytes());
    }
    rb.extend_from_slice(&pbr);
    for _ in 0..n {
        rb.extend_from_slice(&[0, 0, 1, 0, 0]);
    }
    let mut reply = header(if n > 0 { 0x8002 } else { 0x8001 }, rb.len() as u32 + 10, 0);
    reply.extend_from_slice(&rb);
    let ok_reply = reply.len() <= 4096;
    let rejects = sess.iter().any(|s| matches!(s.kind, Kind::Scripted { verdict: Some(_), .. }));
    let mut tpm = Script { reply: Some(reply), fail, ..Default::default() };
    let Some(r) = c.no_panic("run_command", &what, || run_area(&cmd, h, sess, &mut tpm)) else { return };
    if !fits {
        if !tpm.sent.is_empty() {
            c.fail("oversize-sent", format!("{} bytes sent; {what}", tpm.sent[0].len()));
        }
        match r {
            Err(CErr::Tss(_)) => c.note("too-large:refused"),
            Err(e) => c.fail("oversize-error", format!("{e:?}; {what}")),
            Ok(_) => c.fail("oversize-accepted", what),
        }
        return;
    }
    if tpm.sent.len() != 1 {
        c.fail("transactions", format!("{} requests sent; result {:?}; {what}", tpm.sent.len(), r.as_ref().err()));
        return;
    }
    if tpm.sent[0] != want {
        c.fail("request-bytes", format!("sent {} want {}; {what}", hex(&tpm.sent[0]), hex(&want)));
    } else {
        c.note("request-as-specified");
    }
    match fail {
        Some(f) => {
            c.note("fault:connection");
            if r.as_ref().err() != Some(&CErr::Conn(f)) {
                c.fail("connection-error-changed", format!("{:?} instead of Conn({f}); {what}", r.err()));
            }
        }
        None if ok_reply && !rejects => {
            if let Err(e) = r {
                c.fail("well-formed-response-refused", format!("{e:?}; {what}"));
            }
        }
        None => {}
    }
}

/// `run_command` and `get_capability`, which use default handles and no sessions.
fn plain<C: TestCmd>(c: &mut Case) {
    let (cmd, pb) = C::sized(&mut c.rng, 100);
    let zero = vec![0u8; parse(&C::Handles::shape(), &[0; 64]).expect("harness: handle area")];
    let want = request::<C>(&zero, &[], &pb);
    let mut rh = vec![];
    C::RespHandles::arb(&mut c.rng, &mut rh);
    let (v, rp) = C::sized_resp(&mut c.rng, 200);
    let mut reply = header(0x8001, (10 + rh.len() + rp.len()) as u32, 0);
    reply.extend_from_slice(&rh);
    reply.extend_from_slice(&rp);
    if reply.len() > 4096 || want.len() > 4096 {
        return;
    }
    c.eval();
    c.distinct(&[C::NAME.as_bytes(), &want].concat());
    let what = format!("run_command {} {} reply {}", C::NAME, hex(&want), hex(&reply));
    let mut tpm = Script { reply: Some(reply), ..Default::default() };
    let Some(r) = c.no_panic("run_command", &what, || run_command(&cmd, &mut tpm)) else { return };
    if tpm.sent != [want.clone()] {
        c.fail("request-bytes", format!("sent {:x?}; {what}", tpm.sent));
    }
    match r {
        Ok(x) if x == v => c.note("plain"),
        Ok(x) => c.fail("response-value", format!("{}; {what}", AnyVal::dbg(&x))),
        Err(e) => c.fail("well-formed-response-refused", format!("{e:?}; {what}")),
    }
    use std::any::Any;
    if let Some(g) = (&cmd as &dyn Any).downcast_ref::<GetCapabilityCmd>() {
        tpm.sent.clear();
        let Some(r) = c.no_panic("get_capability", &what, || get_capability(&mut tpm, g)) else { return };
        match r {
            Ok(x) if (&x as &dyn Any).downcast_ref::<C::RespT>() == Some(&v) && tpm.sent == [want] => c.note("get_capability"),
            other => c.fail("get_capability", format!("{other:?}; {what}")),
        }
    }
}

/// Every 12-bit response code (and codes with higher bits) once for every
/// command: one request is sent and the caller gets the code.
fn codes<C: TestCmd>(c: &mut Case) {
    let k = c.index / 9;
    let low = (k % 4096) as u32;
    let rc = match k / 4096 {
        0 => low,
        1 => low | 1 << c.rng.range(12, 31),
        _ => low | c.rng.u32() & 0xFFFF_F000,
    };
    let log: Log = RefCell::new(vec![]);
    let n = c.rng.below(4);
    let sess: Vec<Sess> = (0..n).map(|i| session(&mut c.rng, i, &log, false)).collect();
    let mut hb = vec![];
    let h = C::Handles::arb(&mut c.rng, &mut hb);
    let (cmd, pb) = C::sized(&mut c.rng, 40);
    let want = request::<C>(&hb, &sess, &pb);
    if rc == 0 || want.len() > 4096 {
        return;
    }
    let body = if c.rng.chance(3, 4) { vec![] } else { let l = c.rng.below(40); c.rng.bytes(l) };
    let mut reply = header(if c.rng.chance(1, 4) { 0x8002 } else { 0x8001 }, 10 + body.len() as u32, rc);
    reply.extend_from_slice(&body);
    let what = format!("{} with {n} sessions, response {}", C::NAME, hex(&reply));
    c.eval();
    c.distinct(&[C::NAME.as_bytes(), &want, &rc.to_be_bytes()].concat());
    let mut tpm = Script { reply: Some(reply), ..Default::default() };
    let Some(r) = c.no_panic("run_command", &what, || run_area(&cmd, h, sess, &mut tpm)) else { return };
    if tpm.sent != [want] {
        c.fail("transactions-on-error", format!("{} requests: {:x?}; {what}", tpm.sent.len(), tpm.sent));
    }
    match r {
        Err(CErr::Tss(x)) if x == rc => c.note("code:returned"),
        Err(e) => c.fail("response-code-changed", format!("{e:x?} instead of {rc:x}; {what}")),
        Ok(_) => c.fail("error-taken-for-success", what.clone()),
    }
}

// ---- C09 -------------------------------------------------------------------------------

enum Want {
    Ok,
    /// Not prescribed.
    Either,
    Err(Option<u32>),
}

struct Judged {
    want: Want,
    /// Consumed prefix lengths: handles, then parameters at.
    handles: (usize, usize),
    params: (usize, usize),
    auths: Vec<(usize, usize)>,
    /// How the parameter size field deviates, or tag and sessions disagree.
    soft: bool,
    why: &'static str,
}

fn judge<C: TestCmd>(d: &[u8], sess: &[Sess]) -> Judged {
    let mut j = Judged { want: Want::Err(None), handles: (0, 0), params: (0, 0), auths: vec![], soft: false, why: "short-header" };
    if d.len() < 10 {
        return j;
    }
    let be32 = |b: &[u8]| u32::from_be_bytes(b[..4].try_into().unwrap());
    let (tag, size, rc) = (u16::from_be_bytes([d[0], d[1]]), be32(&d[2..]), be32(&d[6..]));
    if rc != 0 {
        j.why = "error-code";
        j.want = Want::Err(if size as usize == d.len() { Some(rc) } else { None });
        return j;
    }
    if size > 4096 {
        j.why = "size-above-buffer";
        j.want = Want::Err(Some(TssError::from(TssTcsError::OutOfMemory).get()));
        return j;
    }
    if size as usize != d.len() {
        j.why = "size-mismatch";
        return j;
    }
    if (tag != 0x8001 && tag != 0x8002) || (tag == 0x8001 && !sess.is_empty()) {
        j.why = "tag";
        j.want = Want::Either;
        return j;
    }
    j.soft = tag == 0x8002 && sess.is_empty();
    let mut at = 10;
    j.why = "handles";
    let Ok(k) = parse(&C::RespHandles::shape(), &d[at..]) else { return j };
    j.handles = (at, at + k);
    at += k;
    let mut psize = None;
    if tag == 0x8002 {
        j.why = "parameter-size";
        if d.len() < at + 4 {
            return j;
        }
        psize = Some(be32(&d[at..]) as usize);
        at += 4;
    }
    j.why = "parameters";
    let Ok(k) = parse(&C::RespT::shape(), &d[at..]) else { return j };
    j.params = (at, at + k);
    if psize.is_some_and(|p| p != k) {
        j.soft = true;
    }
    at += k;
    j.why = "authorizations";
    for _ in sess {
        let Ok(k) = parse(&TpmsAuthResponse::shape(), &d[at..]) else { return j };
        j.auths.push((at, at + k));
        at += k;
    }
    if at != d.len() {
        j.why = "trailing";
        return j;
    }
    j.why = "well-formed";
    for (s, (x, y)) in sess.iter().zip(&j.auths) {
        use tpm2_rs_base::marshal::Marshalable;
        let a = TpmsAuthResponse::try_unmarshal(&mut UnmarshalBuf::new(&d[*x..*y]));
        let Ok(a) = a else {
            j.want = Want::Either;
            return j;
        };
        if let Err(code) = s.accepts(&a) {
            j.why = "session-rejects";
            j.want = Want::Err(if j.soft || code == 0 { None } else { Some(code) });
            return j;
        }
    }
    j.want = if j.soft { Want::Either } else { Want::Ok };
    j
}

fn fix_size(d: &mut [u8]) {
    if d.len() >= 6 {
        let n = d.len() as u32;
        d[2..6].copy_from_slice(&n.to_be_bytes());
    }
}

/// A reply of at most 4096 bytes, and how it was made.
fn reply_for<C: TestCmd>(c: &mut Case, sess: &[Sess]) -> (Vec<u8>, &'static str) {
    let r = &mut c.rng;
    let tag: u16 = if sess.is_empty() { 0x8001 } else { 0x8002 };
    let mut rh = vec![];
    C::RespHandles::arb(r, &mut rh);
    let mut auths = vec![];
    for s in sess {
        auth_response(r, s, &mut auths);
    }
    let rest = 10 + rh.len() + auths.len() + if sess.is_empty() { 0 } else { 4 };
    let target = match r.below(4) {
        0 => 4096,
        1 => r.range(4000, 4100),
        _ => rest + 9 + r.below(200),
    };
    let bad_params = r.chance(1, 8);
    let mut how = "reply:well-formed";
    let mut rp = C::sized_resp(r, target.saturating_sub(rest)).1;
    if bad_params {
        if let Some((b, _)) = malformed(&C::RespT::shape(), r) {
            rp = b;
            how = "reply:malformed-parameters";
        }
    }
    let mut d = header(tag, 0, 0);
    d.extend_from_slice(&rh);
    if tag == 0x8002 {
        d.extend_from_slice(&(rp.len() as u32).to_be_bytes());
    }
    d.extend_from_slice(&rp);
    d.extend_from_slice(&auths);
    fix_size(&mut d);
    match r.below(16) {
        0..=4 => {}
        5 => {
            let k = r.below(d.len());
            d.truncate(k);
            fix_size(&mut d);
            how = "reply:truncated";
        }
        6 => {
            let k = r.below(d.len());
            d.truncate(k);
            how = "reply:cut-short";
        }
        7 => {
            let k = r.range(1, 40);
            d.extend(r.bytes(k));
            fix_size(&mut d);
            how = "reply:trailing";
        }
        8 => {
            let k = r.range(1, 40);
            d.extend(r.bytes(k));
            how = "reply:extra-bytes";
        }
        9 => {
            let n = d.len() as u32;
            let s = match r.below(8) {
                0 => n + 1,
                1 => n - 1,
                2 => 4097,
                3 => u32::MAX,
                4 => n | 0x1_0000,
                5 => 0,
                6 => n | 0x8000_0000,
                _ => r.u32() >> r.below(32),
            };
            d[2..6].copy_from_slice(&s.to_be_bytes());
            how = "reply:size-field";
        }
        10 | 11 => {
            let rc = match r.below(6) {
                0 => 0x101,
                1 => 1 << r.below(32),
                2 => 0x80 | r.u32() & 0xFFF,
                3 => 0x900 | r.u32() & 0x7F,
                4 => r.u32() & 0xFFFF,
                _ => r.u32(),
            };
            d[6..10].copy_from_slice(&rc.to_be_bytes());
            if r.chance(1, 2) {
                d.truncate(10);
                fix_size(&mut d);
            }
            if r.chance(1, 8) {
                d[2] ^= 1;
            }
            how = "reply:error-code";
        }
        12 => {
            let t = match r.below(4) {
                0 => 0x8001u16,
                1 => 0x8002,
                2 => 0x00C4,
                _ => r.u16(),
            };
            d[..2].copy_from_slice(&t.to_be_bytes());
            how = "reply:tag";
        }
        13 if tag == 0x8002 => {
            let at = 10 + rh.len();
            let p = match r.below(4) {
                0 => 0,
                1 => u32::MAX,
                2 => rp.len() as u32 + 1,
                _ => r.u32(),
            };
            d[at..at + 4].copy_from_slice(&p.to_be_bytes());
            how = "reply:parameter-size";
        }
        13 | 14 => {
            for _ in 0..r.range(1, 4) {
                let i = if r.chance(1, 2) { r.below(d.len().min(24)) } else { r.below(d.len()) };
                d[i] = if r.chance(1, 2) { r.u8() } else { d[i] ^ (1 << r.below(8)) };
            }
            if r.chance(1, 2) {
                fix_size(&mut d);
            }
            how = "reply:mutated";
        }
        _ => {
            let k = r.below(200);
            d = match r.below(3) {
                0 => vec![0; k],
                1 => vec![0xFF; k],
                _ => r.bytes(k),
            };
            if r.chance(1, 2) && d.len() >= 10 {
                d[..2].copy_from_slice(&tag.to_be_bytes());
                d[6..10].fill(0);
                fix_size(&mut d);
            }
            how = "reply:random";
        }
    }
    if d.len() > 4096 {
        d.truncate(4096);
        how = "reply:cut-to-buffer";
        if r.chance(1, 2) {
            fix_size(&mut d);
        }
    }
    (d, how)
}

fn seen_in_order(c: &mut Case, log: &[(usize, TpmsAuthResponse)], d: &[u8], j: &Judged, ok: bool, n: usize, what: &str) {
    use tpm2_rs_base::marshal::Marshalable;
    for (i, (id, a)) in log.iter().enumerate() {
        if *id != i {
            c.fail("session-order", format!("shown in order {:?}; {what}", log.iter().map(|x| x.0).collect::<Vec<_>>()));
            return;
        }
        if j.soft || matches!(j.want, Want::Either) {
            continue;
        }
        if let Some((x, y)) = j.auths.get(i) {
            c.note("session:shown");
            let mut b = vec![0u8; 200];
            match a.try_marshal(&mut b) {
                Ok(k) if b[..k] == d[*x..*y] => {}
                other => c.fail("session-shown", format!("session {i} shown {other:?} {} not {}; {what}", hex(&b), hex(&d[*x..*y]))),
            }
        } else if j.why != "handles" && j.why != "parameters" && j.why != "authorizations" && j.why != "parameter-size" {
            c.fail("session-shown-nothing", format!("session {i} ({}); {what}", j.why));
        }
    }
    if ok && log.len() != n {
        c.fail("session-skipped", format!("success with {} of {n} sessions asked; {what}", log.len()));
    }
}

fn response<C: TestCmd>(c: &mut Case) {
    let n = if c.rng.chance(1, 3) { 0 } else { c.rng.range(1, 3) };
    let seed = c.rng.u64();
    let log: Log = RefCell::new(vec![]);
    let make = |log| some_sessions(&mut Rng::new(seed), n, log);
    let sess = make(&log);
    let (d, how) = reply_for::<C>(c, &sess);
    let (cmd, _) = C::sized(&mut c.rng, 60);
    let j = judge::<C>(&d, &sess);
    let what = format!("{} with {n} sessions, {how}, expected {}: {}", C::NAME, j.why, hex(&d));
    c.eval();
    c.note(how);
    c.note(match j.why {
        "short-header" => "judged:short-header",
        "error-code" => "judged:error-code",
        "size-above-buffer" => "judged:size-above-buffer",
        "size-mismatch" => "judged:size-mismatch",
        "tag" => "judged:tag",
        "handles" => "judged:handles",
        "parameter-size" => "judged:parameter-size",
        "parameters" => "judged:parameters",
        "authorizations" => "judged:authorizations",
        "trailing" => "judged:trailing",
        "session-rejects" => "judged:session-rejects",
        _ => "judged:well-formed",
    });
    c.distinct(&[C::NAME.as_bytes(), &[n as u8], &d].concat());
    c.sample(|| what.clone());
    let hseed = c.rng.u64();
    let run = |c: &mut Case, s: Vec<Sess>, poison: u8| {
        let h = C::Handles::arb(&mut Rng::new(hseed), &mut vec![]);
        let mut tpm = Script { reply: Some(d.clone()), poison, ..Default::default() };
        let r = c.no_panic("run_command", &what, || run_area(&cmd, h, s, &mut tpm))?;
        Some((r, tpm))
    };
    let Some((r, tpm)) = run(c, sess, 0) else { return };
    if tpm.sent.len() > 1 {
        c.fail("transactions", format!("{} requests; {what}", tpm.sent.len()));
    }
    seen_in_order(c, &log.borrow(), &d, &j, r.is_ok(), n, &what);
    match (&j.want, &r) {
        (Want::Ok, Err(e)) => c.fail("well-formed-refused", format!("{e:?}; {what}")),
        (Want::Err(_), Ok(_)) => c.fail(format!("accepted:{}", j.why), what.clone()),
        (Want::Err(Some(x)), Err(e)) => {
            if *e != CErr::Tss(*x) {
                c.fail(format!("error-code:{}", j.why), format!("{e:x?} instead of {x:x}; {what}"));
            } else {
                c.note("error-code-kept");
            }
        }
        (Want::Err(None), Err(CErr::Tss(_))) => c.note("refused"),
        (Want::Err(None), Err(e)) => c.fail("error-origin", format!("{e:?}; {what}")),
        (Want::Either, _) => c.note("either"),
        (Want::Ok, Ok(_)) => c.note("accepted"),
    }
    if let (Ok((v, h)), true) = (&r, j.params.1 > 0) {
        use tpm2_rs_base::marshal::Marshalable;
        let v2 = C::RespT::try_unmarshal(&mut UnmarshalBuf::new(&d[j.params.0..j.params.1]));
        let h2 = C::RespHandles::try_unmarshal(&mut UnmarshalBuf::new(&d[j.handles.0..j.handles.1]));
        if v2.as_ref().ok() != Some(v) || h2.as_ref().ok() != Some(h) {
            c.fail("response-value", format!("{} {}; {what}", AnyVal::dbg(v), AnyVal::dbg(h)));
        }
    }
    // Other contents beyond the delivered bytes.
    let log2: Log = RefCell::new(vec![]);
    let p = *c.rng.pick(&[0xFFu8, 0x01, 0x80, 0x5A]);
    let Some((r2, _)) = run(c, make(&log2), p) else { return };
    if r != r2 || *log.borrow() != *log2.borrow() {
        c.fail("undelivered-bytes-matter", format!("{:?} vs {:?}; {what}", r.as_ref().err(), r2.as_ref().err()));
    } else {
        c.note("same-with-other-undelivered-bytes");
    }
}

/// `read_response_header` on its own.
fn headers(c: &mut Case) {
    let n = c.rng.below(24);
    let mut b = c.rng.bytes(n);
    if n >= 10 && c.rng.chance(1, 2) {
        b[6..10].fill(0);
        if c.rng.chance(1, 4) {
            b[6 + c.rng.below(4)] = 1 << c.rng.below(8);
        }
    }
    c.eval();
    c.distinct(&b);
    let what = hex(&b);
    let Some(r) = c.no_panic("read_response_header", &what, || read_response_header(&b)) else { return };
    if n < 10 {
        if r.is_ok() {
            c.fail("header-short", what);
        }
        c.note("header:short");
        return;
    }
    let be32 = |b: &[u8]| u32::from_be_bytes(b[..4].try_into().unwrap());
    let (tag, size, rc) = (u16::from_be_bytes([b[0], b[1]]), be32(&b[2..]), be32(&b[6..]));
    match r {
        Ok((h, k)) => {
            c.note("header:ok");
            if rc != 0 || k != 10 || h.tag.0 != tag || h.size != size || h.rc != 0 {
                c.fail("header-value", format!("{h:?} {k}; {what}"));
            }
        }
        Err(e) => {
            c.note("header:error");
            if rc == 0 || e.get() != rc {
                c.fail("header-error", format!("{e:?}; {what}"));
            }
        }
    }
}

// ---- C10 -------------------------------------------------------------------------------

fn write_sessions(s: &[Sess], b: &mut [u8]) -> Result<usize, TssError> {
    match s {
        [] => write_command_sessions(&(), b),
        [x] => write_command_sessions(&Ref(x), b),
        [x, y] => write_command_sessions(&(Ref(x), Ref(y)), b),
        [x, y, z] => write_command_sessions(&(Ref(x), Ref(y), Ref(z)), b),
        _ => unreachable!(),
    }
}
fn read_sessions(s: &[Sess], b: &mut UnmarshalBuf) -> Result<(), TssError> {
    match s {
        [] => read_response_sessions(&(), b),
        [x] => read_response_sessions(&Ref(x), b),
        [x, y] => read_response_sessions(&(Ref(x), Ref(y)), b),
        [x, y, z] => read_response_sessions(&(Ref(x), Ref(y), Ref(z)), b),
        _ => unreachable!(),
    }
}
struct Ref<'a, 'b>(&'a Sess<'b>);
impl Session for Ref<'_, '_> {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        self.0.get_auth_command()
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> tpm2_rs_base::errors::TssResult<()> {
        self.0.validate_auth_response(a)
    }
}

fn area(c: &mut Case) {
    let log: Log = RefCell::new(vec![]);
    let n = c.rng.below(4);
    let sess = some_sessions(&mut c.rng, n, &log);
    let body: Vec<u8> = sess.iter().flat_map(|s| s.bytes.clone()).collect();
    let mut want = vec![];
    if n > 0 {
        want.extend_from_slice(&(body.len() as u32).to_be_bytes());
        want.extend_from_slice(&body);
    }
    c.distinct(&want);
    let lens: Vec<usize> = if c.index % 8 == 0 {
        (0..want.len() + 4).collect()
    } else {
        let mut l = vec![0, 3, 4, 5, want.len(), want.len() + 1, want.len().saturating_sub(1), 500];
        for _ in 0..3 {
            l.push(c.rng.below(want.len() + 1));
        }
        // Ends of the single authorizations.
        let mut at = 4;
        for s in &sess {
            at += s.bytes.len();
            l.extend([at - 1, at, at + 1]);
        }
        l
    };
    for k in lens {
        c.eval();
        let mut b = vec![0xE7u8; k + 16];
        let what = format!("area of {n} sessions, {} bytes into {k}: {}", want.len(), hex(&want));
        let Some(r) = c.no_panic("write_command_sessions", &what, || write_sessions(&sess, &mut b[..k])) else { continue };
        if !all_are(&b[k..], 0xE7) {
            c.fail("wrote-outside", what.clone());
        }
        match r {
            Ok(m) => {
                c.note("area:written");
                if k < want.len() || m != want.len() || b[..m] != want || !all_are(&b[m..], 0xE7) {
                    c.fail("area-bytes", format!("Ok({m}) {}; {what}", hex(&b)));
                }
            }
            Err(e) => {
                c.note("area:refused");
                if k >= want.len() {
                    c.fail("area-refused", format!("{e:?}; {what}"));
                }
            }
        }
    }
    // Response authorizations.
    let mut d = vec![];
    let mut auths = vec![];
    for s in &sess {
        let x = d.len();
        let a = auth_response(&mut c.rng, s, &mut d);
        auths.push((x, d.len(), a));
    }
    let full = d.len();
    let extra = c.rng.below(5);
    d.extend(c.rng.bytes(extra));
    if c.rng.chance(1, 4) {
        let k = c.rng.below(d.len() + 1);
        d.truncate(k);
    }
    log.borrow_mut().clear();
    let what = format!("{n} sessions read from {}", hex(&d));
    let mut u = UnmarshalBuf::new(&d);
    c.eval();
    let Some(r) = c.no_panic("read_response_sessions", &what, || read_sessions(&sess, &mut u)) else { return };
    let first = sess.iter().zip(&auths).find_map(|(s, a)| s.accepts(&a.2).err());
    for (i, (id, a)) in log.borrow().iter().enumerate() {
        if *id != i || d.len() < auths[i].1 || *a != auths[i].2 {
            c.fail("session-shown", format!("{i}th shown to {id}: {a:?}; {what}"));
            return;
        }
        c.note("session:shown");
    }
    if d.len() < full {
        c.note("area:truncated");
        if r.is_ok() {
            c.fail("truncated-accepted", what);
        }
        return;
    }
    match (first, r) {
        (None, Ok(())) => {
            c.note("area:accepted");
            if d.len() - u.len() != full || log.borrow().len() != n {
                c.fail("area-consumed", format!("{} of {full}, {} shown; {what}", d.len() - u.len(), log.borrow().len()));
            }
        }
        (None, Err(e)) => c.fail("area-rejected", format!("{e:?}; {what}")),
        (Some(_), Ok(())) => c.fail("rejection-lost", what),
        (Some(x), Err(e)) => {
            c.note("area:rejected");
            if x != 0 && e.get() != x {
                c.fail("rejection-changed", format!("{e:?} instead of {x:x}; {what}"));
            }
        }
    }
}

/// Decomposition of the areas, which hands the sessions out in order.
fn decompose(c: &mut Case) {
    let log: Log = RefCell::new(vec![]);
    let mut s = some_sessions(&mut c.rng, 3, &log).into_iter();
    let (a, b, d) = (s.next().unwrap(), s.next().unwrap(), s.next().unwrap());
    fn id<'a>(x: Option<&Ref<'a, '_>>) -> Option<usize> {
        x.map(|x| x.0.id)
    }
    let (r1, r2, r3) = (Ref(&a), Ref(&b), Ref(&d));
    c.eval();
    let mut bad = vec![];
    let (x, y, z) = AuthorizationArea::<NoSession, NoSession, NoSession>::decompose_ref(&());
    if x.is_some() || y.is_some() || z.is_some() || !AuthorizationArea::is_empty(&()) {
        bad.push("()");
    }
    {
        let (x, y, z) = AuthorizationArea::decompose_ref(&r1);
        let (p, q, w) = AuthorizationArea1Plus::decompose_ref(&r1);
        if id(x) != Some(0) || y.is_some() || z.is_some() || p.0.id != 0 || q.is_some() || w.is_some() || AuthorizationArea::is_empty(&r1) {
            bad.push("1");
        }
    }
    let two = (r1, r2);
    {
        let (x, y, z) = AuthorizationArea::decompose_ref(&two);
        let (p, q, w) = AuthorizationArea1Plus::decompose_ref(&two);
        let (g, h, k) = AuthorizationArea2Plus::decompose_ref(&two);
        if (id(x), id(y)) != (Some(0), Some(1)) || z.is_some() || p.0.id != 0 || id(q) != Some(1) || w.is_some() || g.0.id != 0 || h.0.id != 1 || k.is_some() || AuthorizationArea::is_empty(&two) {
            bad.push("2");
        }
    }
    let three = (two.0, two.1, r3);
    {
        let (x, y, z) = AuthorizationArea::decompose_ref(&three);
        let (p, q, w) = AuthorizationArea1Plus::decompose_ref(&three);
        let (g, h, k) = AuthorizationArea2Plus::decompose_ref(&three);
        if (id(x), id(y), id(z)) != (Some(0), Some(1), Some(2)) || p.0.id != 0 || (id(q), id(w)) != (Some(1), Some(2)) || g.0.id != 0 || h.0.id != 1 || id(k) != Some(2) || AuthorizationArea::is_empty(&three) {
            bad.push("3");
        }
    }
    c.note("decomposed");
    if !bad.is_empty() {
        c.fail("decompose", format!("areas of {bad:?}"));
    }
}

fn password(c: &mut Case) {
    let n = match c.rng.below(6) {
        0 => 64,
        1 => 65,
        2 => 65536 + c.rng.below(80),
        3 => c.rng.range(65, 400),
        _ => c.rng.below(66),
    };
    let pw = c.rng.bytes(n);
    c.eval();
    c.distinct(&[b"pw", &pw[..n.min(200)]].concat());
    let Some(r) = c.no_panic("PasswordSession::new", &format!("{n} bytes"), || PasswordSession::new(&pw)) else { return };
    let s = match r {
        Ok(s) if n <= 64 => s,
        Ok(_) => return c.fail("password-too-long-accepted", format!("{n} bytes")),
        Err(e) => {
            c.note("password:refused");
            if n <= 64 || e != TpmRcError::Size {
                c.fail("password-refused", format!("{n} bytes: {e:?}"));
            }
            return;
        }
    };
    c.note("password:made");
    if s.get_secret() != pw {
        c.fail("password-secret", format!("{} from {}", hex(s.get_secret()), hex(&pw)));
    }
    use tpm2_rs_base::marshal::Marshalable;
    let mut b = vec![0u8; 200];
    match s.get_auth_command().try_marshal(&mut b) {
        Ok(k) if b[..k] == pw_bytes(&pw) => {}
        r => c.fail("password-authorization", format!("{r:?} {} for {}", hex(&b), hex(&pw))),
    }
    // Every attribute byte, with empty and non-empty nonce and hmac.
    for attr in 0..=255u8 {
        for k in 0..4u8 {
            let len = |r: &mut Rng, on: bool| if on { r.range(1, 64) } else { 0 };
            let (nl, hl) = (len(&mut c.rng, k & 1 != 0), len(&mut c.rng, k & 2 != 0));
            let z = c.rng.chance(1, 4);
            let mut fill = |n: usize| if z { vec![0; n] } else { c.rng.bytes(n) };
            let (mut nonce, mut hmac) = (fill(nl), fill(hl));
            // What was sent comes back.
            if !pw.is_empty() && c.rng.chance(1, 3) {
                if k & 1 != 0 {
                    nonce = pw.clone();
                }
                if k & 2 != 0 {
                    hmac = pw.clone();
                }
                if k != 0 {
                    c.note("password:echoed");
                }
            }
            let (nl, hl) = (nonce.len(), hmac.len());
            let a = TpmsAuthResponse {
                nonce: Tpm2bNonce::from_bytes(&nonce).expect("nonce"),
                session_attributes: TpmaSession(attr),
                hmac: Tpm2bData::from_bytes(&hmac).expect("hmac"),
            };
            c.eval();
            let want = attr == 1 && k == 0;
            let Some(r) = c.no_panic("validate_auth_response", "password", || s.validate_auth_response(&a)) else { return };
            if r.is_ok() != want {
                c.fail("password-verdict", format!("{r:?} for attributes {attr:#x}, nonce of {nl}, hmac of {hl} bytes"));
            }
            c.note(if want { "password:accepts" } else { "password:rejects" });
        }
    }
}

/// Different session types at different positions, over a whole command.
fn mixed_types(c: &mut Case) {
    let log: Log = RefCell::new(vec![]);
    let mut s = some_sessions(&mut c.rng, 2, &log).into_iter();
    let (mut a, mut b) = (s.next().unwrap(), s.next().unwrap());
    let n = c.rng.below(65);
    let pw = c.rng.bytes(n);
    let p = PasswordSession::new(&pw).expect("password");
    let pos = c.rng.below(3);
    let pa = pw_bytes(&pw);
    let seq: Vec<Vec<u8>> = match pos {
        0 => vec![pa, a.bytes.clone(), b.bytes.clone()],
        1 => vec![a.bytes.clone(), pa, b.bytes.clone()],
        _ => vec![a.bytes.clone(), b.bytes.clone(), pa],
    };
    a.id = 0;
    b.id = 1;
    let body = seq.concat();
    let mut reply = header(0x8002, 0, 0);
    let pw_ok = c.rng.chance(3, 4);
    let mut da = vec![];
    let ra = auth_response(&mut c.rng, &a, &mut da);
    let mut db = vec![];
    let rb = auth_response(&mut c.rng, &b, &mut db);
    let dp = if pw_ok { vec![0, 0, 1, 0, 0] } else { vec![0, 0, 0, 0, 0] };
    reply.extend_from_slice(&[0; 4]);
    for x in match pos {
        0 => [&dp, &da, &db],
        1 => [&da, &dp, &db],
        _ => [&da, &db, &dp],
    } {
        reply.extend_from_slice(x);
    }
    fix_size(&mut reply);
    let verdicts = match pos {
        0 => [if pw_ok { Ok(()) } else { Err(0) }, a.accepts(&ra), b.accepts(&rb)],
        1 => [a.accepts(&ra), if pw_ok { Ok(()) } else { Err(0) }, b.accepts(&rb)],
        _ => [a.accepts(&ra), b.accepts(&rb), if pw_ok { Ok(()) } else { Err(0) }],
    };
    let first = verdicts.iter().find_map(|v| v.err());
    let cmd = StartupCmd { startup_type: TpmSu(c.rng.u16()) };
    let mut tpm = Script { reply: Some(reply.clone()), ..Default::default() };
    let what = format!("password at {pos}, verdicts {verdicts:?}, reply {}", hex(&reply));
    c.eval();
    c.distinct(&reply);
    let Some(r) = c.no_panic("run_command", &what, || match pos {
        0 => run_command_with_handles(&cmd, (), (p, a, b), &mut tpm),
        1 => run_command_with_handles(&cmd, (), (a, p, b), &mut tpm),
        _ => run_command_with_handles(&cmd, (), (a, b, p), &mut tpm),
    }) else {
        return;
    };
    let sent = tpm.sent.first().cloned().unwrap_or_default();
    if sent.len() != 10 + 4 + body.len() + 2 || sent[14..14 + body.len()] != body || sent[10..14] != (body.len() as u32).to_be_bytes() {
        c.fail("area-bytes", format!("{} wanted area {}; {what}", hex(&sent), hex(&body)));
    }
    match (first, r) {
        (None, Ok(_)) => c.note("mixed:accepted"),
        (Some(0), Err(CErr::Tss(_))) => c.note("mixed:rejected"),
        (Some(x), Err(CErr::Tss(y))) if x == y => c.note("mixed:rejected"),
        (_, r) => c.fail("mixed-verdict", format!("{:?}; {what}", r.err())),
    }
    let ids: Vec<usize> = log.borrow().iter().map(|x| x.0).collect();
    if ids != [0, 1][..ids.len().min(2)] || (first.is_none() && ids.len() != 2) {
        c.fail("session-order", format!("{ids:?}; {what}"));
    }
}

fn main() {
    let mut ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C08" => {
            ctx.rule = "commands of every kind with random handles, parameters and zero to three sessions run against a recording connection; distinct by command and request bytes".into();
            let n = ctx.n(32, 800_000, 12_000_000);
            ctx.section("requests", n, |c| each_cmd!(c.index, framing(c)));
            let n = ctx.n(16, 200_000, 2_000_000);
            ctx.section("plain", n, |c| each_cmd!(c.index, plain(c)));
            let n = ctx.n(40, 9 * 4096 * 3, 9 * 4096 * 20);
            ctx.section("codes", n, |c| each_cmd!(c.index, codes(c)));
            for k in ["fits", "too-large", "too-large:refused", "request-as-specified", "fault:connection", "sessions:0", "sessions:1", "sessions:2", "sessions:3", "plain", "get_capability", "code:returned"] {
                ctx.require(k, 1000);
            }
        }
        "C09" => {
            ctx.rule = "responses to commands of every kind, well-formed and damaged, judged by the reference grammar and delivered with two different contents of the rest of the buffer; distinct by command, sessions and response bytes".into();
            let n = ctx.n(40, 1_200_000, 15_000_000);
            ctx.section("responses", n, |c| each_cmd!(c.index, response(c)));
            let n = ctx.n(20, 50_000, 500_000);
            ctx.section("headers", n, headers);
            let n = ctx.n(40, 9 * 4096 * 3, 9 * 4096 * 20);
            ctx.section("codes", n, |c| each_cmd!(c.index, codes(c)));
            for k in ["accepted", "refused", "error-code-kept", "judged:short-header", "judged:error-code", "judged:size-above-buffer", "judged:size-mismatch", "judged:handles", "judged:parameters", "judged:authorizations", "judged:trailing", "judged:session-rejects", "header:ok", "code:returned"] {
                ctx.require(k, 200);
            }
        }
        "C10" => {
            ctx.rule = "authorization areas of zero to three scripted or password sessions written, and response authorizations shown to them; distinct by area bytes".into();
            let n = ctx.n(20, 250_000, 3_000_000);
            ctx.section("areas", n, area);
            let n = ctx.n(20, 250_000, 3_000_000);
            ctx.section("responses", n, |c| each_cmd!(c.index, response(c)));
            let n = ctx.n(10, 40_000, 400_000);
            ctx.section("mixed", n, mixed_types);
            let n = ctx.n(1, 1_000, 20_000);
            ctx.section("password", n, password);
            ctx.section("decompose", 10, decompose);
            for k in ["area:written", "area:refused", "area:accepted", "area:rejected", "area:truncated", "session:shown", "password:rejects", "password:accepts", "mixed:accepted", "mixed:rejected", "judged:session-rejects"] {
                ctx.require(k, 100);
            }
        }
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    let _ = <Script as Connection>::transact;
    ctx.finish()
}
