//! Reference grammar of the TPM wire format, written down independently of the
//! codec under test: what bytes a type has, which byte strings are well formed
//! and which kinds of error a malformed one may be rejected with.
use crate::rng::Rng;

pub const END: u8 = 1;
pub const ARR: u8 = 2;
pub const SEL: u8 = 4;

#[derive(Clone, Debug)]
pub enum Shape {
    Unit,
    /// Big-endian integer of `n` bytes.
    Int(usize),
    /// Fixed number of raw bytes.
    Bytes(usize),
    /// 16-bit size and that many bytes, at most `max`.
    B2(usize),
    /// `w`-byte count and that many elements, at most `max`.
    Cnt { w: usize, max: usize, elem: Box<Shape> },
    /// Fixed repetition.
    Rep(usize, Box<Shape>),
    Seq(Vec<Shape>),
    /// `w`-byte selector and the selected body.
    Sel { w: usize, arms: Vec<(u64, Shape)> },
    /// `pre`, `w`-byte selector, `mid`, selected body.
    Deferred { pre: Box<Shape>, w: usize, mid: Box<Shape>, arms: Vec<(u64, Shape)> },
    /// `w`-byte count, then parts in order: plain ones, and arrays of that many
    /// elements (with their capacity).
    Counted { w: usize, parts: Vec<(Option<usize>, Shape)> },
    /// Any mixture of plain parts, counts and arrays.
    Rec(Vec<Part>),
}

#[derive(Clone, Debug)]
pub enum Part {
    One(Shape),
    /// `w`-byte count, referred to by its position among the counts.
    Count(usize),
    /// As many elements as the count says, at most `cap`.
    Arr { count: usize, cap: usize, elem: Shape },
}

/// The smallest capacity among the arrays that use the `k`-th count.
fn room(parts: &[Part], k: usize) -> Option<usize> {
    parts.iter().filter_map(|p| if let Part::Arr { count, cap, .. } = p && *count == k { Some(*cap) } else { None }).min()
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, &x| (a << 8) | x as u64)
}

/// `Ok(consumed)` or the set of error kinds that are right for this input.
pub fn parse(s: &Shape, b: &[u8]) -> Result<usize, u8> {
    match s {
        Shape::Unit => Ok(0),
        Shape::Int(n) | Shape::Bytes(n) => {
            if b.len() < *n {
                Err(END)
            } else {
                Ok(*n)
            }
        }
        Shape::B2(max) => {
            if b.len() < 2 {
                return Err(END);
            }
            let n = be(&b[..2]) as usize;
            if n > *max {
                // Rejected; the kind is not prescribed.
                return Err(END | ARR);
            }
            if b.len() < 2 + n { Err(END) } else { Ok(2 + n) }
        }
        Shape::Cnt { w, max, elem } => {
            if b.len() < *w {
                return Err(END);
            }
            let n = be(&b[..*w]);
            elems(n, *max, elem, &b[*w..]).map(|k| k + w)
        }
        Shape::Counted { w, parts } => {
            if b.len() < *w {
                return Err(END);
            }
            let n = be(&b[..*w]);
            let over = parts.iter().any(|(m, _)| m.is_some_and(|m| n > m as u64));
            let mut at = *w;
            for (m, s) in parts {
                let r = match m {
                    None => parse(s, &b[at..]),
                    Some(m) => elems(n, *m, s, &b[at..]),
                };
                match r {
                    Ok(k) => at += k,
                    Err(e) => return Err(if over { e | ARR } else { e }),
                }
            }
            Ok(at)
        }
        Shape::Rec(parts) => {
            let (mut at, mut counts, mut over) = (0, vec![], false);
            for p in parts {
                let r = match p {
                    Part::One(s) => parse(s, &b[at..]),
                    Part::Count(w) if b.len() - at < *w => Err(END),
                    Part::Count(w) => {
                        let n = be(&b[at..at + w]);
                        over |= room(parts, counts.len()).is_some_and(|m| n > m as u64);
                        counts.push(n);
                        Ok(*w)
                    }
                    Part::Arr { count, cap, elem } => elems(counts[*count], *cap, elem, &b[at..]),
                };
                match r {
                    Ok(k) => at += k,
                    Err(e) => return Err(if over { e | ARR } else { e }),
                }
            }
            Ok(at)
        }
        Shape::Rep(n, e) => {
            let mut at = 0;
            for _ in 0..*n {
                at += parse(e, &b[at..])?;
            }
            Ok(at)
        }
        Shape::Seq(v) => {
            let mut at = 0;
            for f in v {
                at += parse(f, &b[at..])?;
            }
            Ok(at)
        }
        Shape::Sel { w, arms } => {
            if b.len() < *w {
                return Err(END);
            }
            parse_body(arms, be(&b[..*w]), &b[*w..]).map(|k| k + w)
        }
        Shape::Deferred { pre, w, mid, arms } => {
            let mut at = parse(pre, b)?;
            if b.len() < at + w {
                return Err(END);
            }
            let sel = be(&b[at..at + w]);
            at += w;
            let known = arms.iter().any(|(s, _)| *s == sel);
            match parse(mid, &b[at..]) {
                Err(e) => return Err(if known { e } else { e | SEL }),
                Ok(k) => at += k,
            }
            parse_body(arms, sel, &b[at..]).map(|k| at + k)
        }
    }
}

fn elems(n: u64, max: usize, elem: &Shape, b: &[u8]) -> Result<usize, u8> {
    let over = n > max as u64;
    let mut at = 0;
    let mut zero = 0;
    for _ in 0..n {
        match parse(elem, &b[at..]) {
            Ok(0) => {
                zero += 1;
                if zero > 70_000 {
                    break;
                }
            }
            Ok(k) => at += k,
            Err(e) => return Err(if over { e | ARR } else { e }),
        }
    }
    if over { Err(ARR) } else { Ok(at) }
}

/// Parses the body selected by `sel`.
pub fn parse_body(arms: &[(u64, Shape)], sel: u64, b: &[u8]) -> Result<usize, u8> {
    match arms.iter().find(|(s, _)| *s == sel) {
        None => Err(SEL),
        Some((_, s)) => parse(s, b),
    }
}

impl Shape {
    pub fn arms(&self) -> Option<&[(u64, Shape)]> {
        match self {
            Shape::Sel { arms, .. } => Some(arms),
            _ => None,
        }
    }
    pub fn sel_width(&self) -> usize {
        match self {
            Shape::Sel { w, .. } => *w,
            _ => 0,
        }
    }
}

/// Byte generator; malforms the `target`-th fault site it reaches.
pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub out: Vec<u8>,
    pub sites: usize,
    pub target: Option<usize>,
    pub hit: Option<&'static str>,
    /// Upper bound for list lengths unless the boundary itself is chosen.
    pub budget: usize,
}

impl Gen<'_> {
    fn put(&mut self, v: u64, w: usize) {
        let be = v.to_be_bytes();
        self.out.extend_from_slice(&be[8 - w..]);
    }
    fn site(&mut self) -> bool {
        let hit = self.target == Some(self.sites);
        self.sites += 1;
        hit
    }
    fn choose_len(&mut self, max: usize) -> usize {
        let n = self.rng.len_upto(max);
        if self.out.len() > self.budget { n.min(2) } else { n }
    }
    fn unknown(&mut self, w: usize, arms: &[(u64, Shape)]) -> u64 {
        let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        loop {
            let base = if arms.is_empty() { 0 } else { self.rng.pick(arms).0 };
            let v = match self.rng.below(7) {
                0 => base.wrapping_add(1),
                1 => base.wrapping_sub(1),
                2 => base.swap_bytes() >> (64 - 8 * w),
                3 => base ^ (1 << self.rng.below(8 * w)),
                4 => 0,
                5 => mask,
                _ => self.rng.u64(),
            } & mask;
            if !arms.iter().any(|(s, _)| *s == v) {
                return v;
            }
        }
    }
    fn count(&mut self, w: usize, max: usize) -> (u64, u64) {
        // (declared, elements actually emitted)
        let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        if self.site() && (max as u64) < mask {
            self.hit = Some("count");
            let over = match self.rng.below(6) {
                0 | 1 => max as u64 + 1,
                2 => (max as u64 + 1 + self.rng.below(4) as u64).min(mask),
                3 => mask,
                4 => 1u64 << (8 * w - 1),
                _ => self.rng.u64() & mask,
            };
            let over = if over <= max as u64 { max as u64 + 1 } else { over };
            let emit = if self.rng.chance(3, 4) { over.min(max as u64 + 6) } else { self.rng.below(3) as u64 };
            (over, emit)
        } else {
            let n = self.choose_len(max) as u64;
            (n, n)
        }
    }
    pub fn emit(&mut self, s: &Shape) {
        match s {
            Shape::Unit => {}
            Shape::Int(n) => {
                let v = self.rng.edgy_u64(8 * *n as u32);
                self.put(v, *n);
            }
            Shape::Bytes(n) => {
                let b = self.rng.bytes(*n);
                self.out.extend(b);
            }
            Shape::B2(max) => {
                if self.site() && *max < 0xFFFF {
                    self.hit = Some("size");
                    let n = match self.rng.below(4) {
                        0 | 1 => max + 1,
                        2 => 0xFFFF,
                        _ => self.rng.range(max + 1, 0xFFFF),
                    };
                    self.put(n as u64, 2);
                    let have = if self.rng.chance(3, 4) { n } else { self.rng.below(max + 1) };
                    let b = self.rng.bytes(have);
                    self.out.extend(b);
                } else {
                    let n = self.choose_len(*max);
                    self.put(n as u64, 2);
                    let b = self.rng.bytes(n);
                    self.out.extend(b);
                }
            }
            Shape::Cnt { w, max, elem } => {
                let (n, k) = self.count(*w, *max);
                self.put(n, *w);
                for _ in 0..k {
                    self.emit(elem);
                }
            }
            Shape::Counted { w, parts } => {
                let max = parts.iter().filter_map(|(m, _)| *m).min().unwrap_or(0);
                let (n, k) = self.count(*w, max);
                self.put(n, *w);
                for (m, s) in parts {
                    for _ in 0..if m.is_some() { k } else { 1 } {
                        self.emit(s);
                    }
                }
            }
            Shape::Rec(parts) => {
                let mut counts = vec![];
                for p in parts {
                    match p {
                        Part::One(s) => self.emit(s),
                        Part::Count(w) => {
                            let k = match room(parts, counts.len()) {
                                Some(m) => {
                                    let (n, k) = self.count(*w, m);
                                    self.put(n, *w);
                                    k
                                }
                                None => {
                                    self.emit(&Shape::Int(*w));
                                    0
                                }
                            };
                            counts.push(k);
                        }
                        Part::Arr { count, elem, .. } => {
                            for _ in 0..counts[*count] {
                                self.emit(elem);
                            }
                        }
                    }
                }
            }
            Shape::Rep(n, e) => {
                for _ in 0..*n {
                    self.emit(e);
                }
            }
            Shape::Seq(v) => {
                for f in v {
                    self.emit(f);
                }
            }
            Shape::Sel { w, arms } => {
                if self.site() {
                    self.hit = Some("selector");
                    let u = self.unknown(*w, arms);
                    self.put(u, *w);
                    let n = self.rng.below(200);
                    let b = self.rng.bytes(n);
                    self.out.extend(b);
                } else {
                    let k = self.rng.below(arms.len());
                    self.put(arms[k].0, *w);
                    self.emit(&arms[k].1);
                }
            }
            Shape::Deferred { pre, w, mid, arms } => {
                self.emit(pre);
                if self.site() {
                    self.hit = Some("selector");
                    let u = self.unknown(*w, arms);
                    self.put(u, *w);
                    self.emit(mid);
                    let n = self.rng.below(200);
                    let b = self.rng.bytes(n);
                    self.out.extend(b);
                } else {
                    let k = self.rng.below(arms.len());
                    self.put(arms[k].0, *w);
                    self.emit(mid);
                    self.emit(&arms[k].1);
                }
            }
        }
    }
}

/// Well-formed bytes of a shape.
pub fn well_formed(s: &Shape, rng: &mut Rng) -> Vec<u8> {
    let mut g = Gen { rng, out: vec![], sites: 0, target: None, hit: None, budget: 6000 };
    g.emit(s);
    g.out
}

/// Bytes with one malformed node; `None` when the shape has no such node.
pub fn malformed(s: &Shape, rng: &mut Rng) -> Option<(Vec<u8>, &'static str)> {
    let mut kr = Rng::new(rng.u64());
    let mut probe = rng.clone();
    let mut g = Gen { rng: &mut probe, out: vec![], sites: 0, target: None, hit: None, budget: 6000 };
    g.emit(s);
    let sites = g.sites;
    if sites == 0 {
        return None;
    }
    // The first sites are structurally the most interesting ones.
    let k = if sites > 6 && kr.chance(1, 2) { kr.below(6) } else { kr.below(sites) };
    let mut g = Gen { rng, out: vec![], sites: 0, target: Some(k), hit: None, budget: 6000 };
    g.emit(s);
    let (out, hit) = (g.out, g.hit);
    hit.map(|h| (out, h))
}
