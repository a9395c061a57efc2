//! Run context: sections of deterministic cases, guarded calls, verdicts.
use crate::rng::{Rng, hash_bytes};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// A handful of cases, for interpreters that are orders of magnitude slower.
    Tiny,
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: RefCell<u32> = const { RefCell::new(0) };
}

/// Installs a hook that remembers the panic message of guarded calls instead of
/// printing it.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.with(|g| *g.borrow() > 0);
        if !guarded {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Calls into the code under test. `Err` holds the panic message.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "<panic>".into())),
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub section: String,
    pub index: u64,
    /// Stable signature of what failed (used to match known findings).
    pub sig: String,
    pub detail: String,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    distinct: HashSet<u64>,
    distinct_n: u64,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    violations: Vec<Violation>,
}

/// One case of a section.
pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub section: &'a str,
    pub tier: Tier,
    acc: &'a mut Acc,
    verbose: bool,
}

impl Case<'_> {
    /// Counts one observed event of kind `key`.
    pub fn note(&mut self, key: &str) {
        self.note_n(key, 1)
    }
    pub fn note_n(&mut self, key: &str, n: u64) {
        match self.acc.counters.get_mut(key) {
            Some(c) => *c += n,
            None => {
                self.acc.counters.insert(key.to_string(), n);
            }
        }
    }
    /// One oracle evaluation.
    pub fn eval(&mut self) {
        self.acc.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.acc.evals += n;
    }
    /// `n` non-trivial evaluations that are distinct by construction.
    pub fn distinct_n(&mut self, n: u64) {
        self.acc.distinct_n += n;
    }
    /// Marks the evaluated case as non-trivial; `key` identifies it.
    pub fn distinct(&mut self, key: &[u8]) {
        if self.acc.distinct.len() < 4_000_000 {
            let h = hash_bytes(key) ^ hash_bytes(self.section.as_bytes());
            self.acc.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.acc.samples.len() < 3 || self.verbose {
            let s = f();
            if self.verbose {
                println!("[{}:{}] {}", self.section, self.index, s);
            }
            if self.acc.samples.len() < 3 {
                self.acc.samples.push(s);
            }
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let v = Violation {
            section: self.section.to_string(),
            index: self.index,
            sig: sig.into(),
            detail: detail.into(),
        };
        if self.verbose {
            println!("[{}:{}] FAIL {}: {}", v.section, v.index, v.sig, v.detail);
        }
        if self.acc.violations.len() < 200 {
            self.acc.violations.push(v);
        }
    }
    /// Guarded call; a panic is recorded as a violation and yields `None`.
    pub fn no_panic<R>(&mut self, what: &str, ctx: &str, f: impl FnOnce() -> R) -> Option<R> {
        match call(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.fail(format!("panic:{what}"), format!("{what} panicked: {p}; {ctx}"));
                None
            }
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    only: Option<(String, u64)>,
    acc: Acc,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    /// Violations after which a worker stops.
    pub enough: usize,
    threads: usize,
    journal: Option<String>,
    out: Option<String>,
    start: std::time::Instant,
    sections: BTreeMap<String, u64>,
    inconclusive: Vec<String>,
}

struct Slot {
    busy: AtomicBool,
    index: AtomicU64,
    tid: AtomicU64,
}

fn cpu_ms(tid: u64) -> Option<u64> {
    // utime + stime of the thread, in clock ticks, from /proc.
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(ticks * 10)
}

const HANG_CPU_MS: u64 = 45_000;
/// Consecutive seconds in which no thread of the process ran or could have run.
const STUCK_TICKS: u32 = 60;

/// CPU time of the process and whether all its threads but this one sleep.
fn asleep() -> Option<(u64, bool)> {
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    let (mut cpu, mut all) = (0, true);
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let tid: u64 = t.ok()?.file_name().to_str()?.parse().ok()?;
        if tid == me {
            continue;
        }
        let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
        all &= s[s.rfind(')')? + 2..].starts_with('S');
        cpu += cpu_ms(tid)?;
    }
    Some((cpu, all))
}

impl Ctx {
    /// Arguments: `<property> <tiny|quick|thorough> <seed> <out.json|-> [section:index]`
    pub fn from_args() -> Ctx {
        install_panic_hook();
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 5 {
            eprintln!("usage: {} PROP tiny|quick|thorough SEED OUT|- [section:index]", a[0]);
            std::process::exit(2);
        }
        let tier = match a[2].as_str() {
            "tiny" => Tier::Tiny,
            "quick" => Tier::Quick,
            _ => Tier::Thorough,
        };
        let only = a.get(5).map(|s| {
            let (x, y) = s.rsplit_once(':').expect("section:index");
            (x.to_string(), y.parse().expect("index"))
        });
        let journal = std::env::var("VERIF_JOURNAL").ok();
        let threads = if journal.is_some() || only.is_some() || cfg!(miri) {
            1
        } else {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8)
        };
        Ctx {
            prop: a[1].clone(),
            tier,
            seed: a[3].parse().expect("seed"),
            only,
            acc: Acc::default(),
            rule: String::new(),
            assumptions: vec![],
            exhaustive: false,
            enough: 50,
            threads,
            journal,
            out: if a[4] == "-" { None } else { Some(a[4].clone()) },
            start: std::time::Instant::now(),
            sections: BTreeMap::new(),
            inconclusive: vec![],
        }
    }

    /// Chooses a case count by tier.
    pub fn n(&self, tiny: u64, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Tiny => tiny,
            // A slower build does a fraction of the work.
            Tier::Quick => match std::env::var("VERIF_DIV").ok().and_then(|d| d.parse::<u64>().ok()) {
                Some(d) if d > 1 => quick / d + 1,
                _ => quick,
            },
            Tier::Thorough => thorough,
        }
    }

    /// Runs `n` cases of `section`, sharded over threads. Every case only
    /// depends on (seed, section, index).
    pub fn section(&mut self, section: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        self.section_threads(section, n, self.threads, f)
    }

    pub fn section_threads(
        &mut self,
        section: &str,
        n: u64,
        threads: usize,
        f: impl Fn(&mut Case) + Sync,
    ) {
        let (lo, hi) = match &self.only {
            Some((s, i)) if s == section => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        let verbose = self.only.is_some();
        let threads = if self.only.is_some() || self.journal.is_some() || cfg!(miri) {
            1
        } else {
            threads.min(n.max(1) as usize)
        };
        let seed = self.seed;
        let tier = self.tier;
        let prop = self.prop.as_str();
        let enough = self.enough;
        let next = AtomicU64::new(lo);
        let merged: Mutex<Vec<Acc>> = Mutex::new(vec![]);
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot {
                busy: AtomicBool::new(false),
                index: AtomicU64::new(0),
                tid: AtomicU64::new(0),
            })
            .collect();
        let done = AtomicBool::new(false);
        let journal = self.journal.clone();
        // Part i of k of the cases, for several slow processes.
        let (part, parts) = std::env::var("VERIF_SHARD")
            .ok()
            .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse::<u64>().unwrap_or(0), b.parse::<u64>().unwrap_or(1).max(1))))
            .unwrap_or((0, 1));
        std::thread::scope(|s| {
            let mut hs = vec![];
            for slot in &slots {
                let (next, merged, f, journal) = (&next, &merged, &f, &journal);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(if cfg!(miri) { 16 << 20 } else { 128 << 20 })
                        .spawn_scoped(s, move || {
                            #[cfg(not(miri))]
                            slot.tid.store(
                                unsafe { libc::syscall(libc::SYS_gettid) } as u64,
                                Ordering::Relaxed,
                            );
                            let mut acc = Acc::default();
                            loop {
                                // Small chunks keep the shards balanced.
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= hi || acc.violations.len() >= enough {
                                    break;
                                }
                                if parts > 1 && !verbose && i % parts != part {
                                    continue;
                                }
                                if let Some(j) = journal {
                                    let _ = std::fs::write(j, format!("{section}:{i}"));
                                }
                                slot.index.store(i, Ordering::Relaxed);
                                slot.busy.store(true, Ordering::Relaxed);
                                let mut case = Case {
                                    rng: Rng::for_case(seed, section, i),
                                    index: i,
                                    section,
                                    tier,
                                    acc: &mut acc,
                                    verbose,
                                };
                                // A panic that a monitor did not expect is one of the
                                // code under test, unless it says otherwise.
                                if let Err(m) = call(|| f(&mut case)) {
                                    if m.starts_with("harness:") {
                                        eprintln!("{section}:{i}: {m}");
                                        std::process::exit(2);
                                    }
                                    case.fail("panic:case", m);
                                }
                                slot.busy.store(false, Ordering::Relaxed);
                            }
                            merged.lock().unwrap().push(acc);
                        })
                        .expect("spawn worker"),
                );
            }
            #[cfg(not(miri))]
            {
                let (slots, done) = (&slots, &done);
                s.spawn(move || {
                    // (case, cpu time when first seen)
                    let mut seen: Vec<Option<(u64, u64)>> = slots.iter().map(|_| None).collect();
                    let mut tick = 0u32;
                    let (mut last, mut stuck) = (u64::MAX, 0u32);
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        tick += 1;
                        if tick % 50 != 0 {
                            continue;
                        }
                        // Threads that wait for each other. The simulator's start waits for other processes.
                        match asleep() {
                            Some((cpu, true)) if cpu == last && prop != "C13" => stuck += 1,
                            Some((cpu, _)) => (last, stuck) = (cpu, 0),
                            None => stuck = 0,
                        }
                        if stuck >= STUCK_TICKS {
                            if let Some(sl) = slots.iter().find(|sl| sl.busy.load(Ordering::Relaxed)) {
                                println!("STUCK {section}:{}", sl.index.load(Ordering::Relaxed));
                                std::process::exit(78);
                            }
                        }
                        for (k, sl) in slots.iter().enumerate() {
                            if !sl.busy.load(Ordering::Relaxed) {
                                seen[k] = None;
                                continue;
                            }
                            let i = sl.index.load(Ordering::Relaxed);
                            let Some(cpu) = cpu_ms(sl.tid.load(Ordering::Relaxed)) else {
                                continue;
                            };
                            match seen[k] {
                                Some((j, c0)) if j == i => {
                                    if cpu.saturating_sub(c0) > HANG_CPU_MS {
                                        println!("HANG {section}:{i}");
                                        std::process::exit(78);
                                    }
                                }
                                _ => seen[k] = Some((i, cpu)),
                            }
                        }
                    }
                });
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("harness error in section {section}");
                    std::process::exit(2);
                }
            }
            done.store(true, Ordering::Relaxed);
        });
        *self.sections.entry(section.to_string()).or_default() += hi - lo;
        for a in merged.into_inner().unwrap() {
            self.acc.evals += a.evals;
            self.acc.distinct.extend(a.distinct);
            self.acc.distinct_n += a.distinct_n;
            for s in a.samples {
                if self.acc.samples.len() < 12
                    && !self.acc.samples.iter().any(|x| x.starts_with(&format!("{section}|")) && {
                        self.acc.samples.iter().filter(|y| y.starts_with(&format!("{section}|"))).count() >= 2
                    })
                {
                    self.acc.samples.push(format!("{section}|{s}"));
                }
            }
            for (k, v) in a.counters {
                *self.acc.counters.entry(k).or_default() += v;
            }
            self.acc.violations.extend(a.violations);
        }
    }

    /// The run is inconclusive unless the monitors observed at least `min`
    /// events of kind `key`. A run that observed nothing decides nothing.
    pub fn require(&mut self, key: &str, min: u64) {
        if self.only.is_some() || self.tier == Tier::Tiny {
            return;
        }
        let got = self.acc.counters.get(key).copied().unwrap_or(0);
        if got < min {
            self.inconclusive.push(format!("observed {got} of `{key}`, need {min}"));
        }
    }

    pub fn evals(&self) -> u64 {
        self.acc.evals
    }

    /// Writes the result file and exits: 0 held, 1 violated, 2 inconclusive.
    pub fn finish(mut self) -> ! {
        self.acc
            .violations
            .sort_by(|a, b| (&a.sig, &a.section, a.index).cmp(&(&b.sig, &b.section, b.index)));
        let mut by_sig: Vec<&Violation> = vec![];
        for v in &self.acc.violations {
            if by_sig.last().is_none_or(|l| l.sig != v.sig) {
                by_sig.push(v);
            }
        }
        for v in by_sig.iter().take(10) {
            println!("VIOL {} {}:{} {}", v.sig, v.section, v.index, v.detail);
        }
        for s in &self.inconclusive {
            println!("INCONCLUSIVE {s}");
        }
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"wall_s\":{:.3}",
            self.acc.evals,
            self.acc.distinct.len() as u64 + self.acc.distinct_n,
            jstr(&self.rule),
            self.exhaustive,
            self.start.elapsed().as_secs_f64()
        );
        let list = |xs: &mut dyn Iterator<Item = String>| xs.collect::<Vec<_>>().join(",");
        let _ = write!(j, ",\"samples\":[{}]", list(&mut self.acc.samples.iter().map(|s| jstr(s))));
        let _ = write!(
            j,
            ",\"assumptions\":[{}]",
            list(&mut self.assumptions.iter().map(|s| jstr(s)))
        );
        let _ = write!(
            j,
            ",\"events\":{{{}}}",
            list(&mut self.acc.counters.iter().map(|(k, v)| format!("{}:{v}", jstr(k))))
        );
        let _ = write!(
            j,
            ",\"sections\":{{{}}}",
            list(&mut self.sections.iter().map(|(k, v)| format!("{}:{v}", jstr(k))))
        );
        let _ = write!(
            j,
            ",\"inconclusive\":[{}]",
            list(&mut self.inconclusive.iter().map(|s| jstr(s)))
        );
        let _ = write!(
            j,
            ",\"violations\":[{}]}}",
            list(&mut by_sig.iter().map(|v| format!(
                "{{\"sig\":{},\"section\":{},\"index\":{},\"detail\":{}}}",
                jstr(&v.sig),
                jstr(&v.section),
                v.index,
                jstr(&v.detail)
            )))
        );
        if let Some(o) = &self.out {
            if let Err(e) = std::fs::write(o, &j) {
                eprintln!("cannot write {o}: {e}");
                std::process::exit(2);
            }
        }
        println!(
            "evaluations={} distinct={} violations={} wall={:.1}s",
            self.acc.evals,
            self.acc.distinct.len() as u64 + self.acc.distinct_n,
            self.acc.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if !self.acc.violations.is_empty() {
            1
        } else if !self.inconclusive.is_empty() {
            2
        } else {
            0
        })
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars().take(4000) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Hex dump, shortened in the middle.
pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    if b.len() <= 96 {
        for x in b {
            let _ = write!(o, "{x:02x}");
        }
    } else {
        for x in &b[..64] {
            let _ = write!(o, "{x:02x}");
        }
        let _ = write!(o, "..({} bytes)..", b.len());
        for x in &b[b.len() - 16..] {
            let _ = write!(o, "{x:02x}");
        }
    }
    o
}

/// Whether every byte is `x` (in bulk, which matters under an interpreter).
pub fn all_are(b: &[u8], x: u8) -> bool {
    b == &vec![x; b.len()][..]
}
