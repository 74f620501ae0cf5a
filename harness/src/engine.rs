//! Choice-sequence property-testing engine.
//!
//! A generated case is a pure function of a tape of bounded draws. Random
//! cases record their tape; shrinking edits the tape (deletes, zeroes and
//! lowers draws) and re-runs the same generator, so every generator shrinks
//! without extra code and every failure replays from its tape alone.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Src {
    tape: Vec<u64>,
    rng: Option<Rng>,
    /// The draws actually made (normalised to their bounds).
    pub rec: Vec<u64>,
    pub index: u64,
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        Src { tape: Vec::new(), rng: Some(Rng::new(seed)), rec: Vec::new(), index, log: None }
    }
    pub fn replay(tape: &[u64], index: u64) -> Src {
        Src { tape: tape.to_vec(), rng: None, rec: Vec::new(), index, log: None }
    }

    /// A draw in `0..n` (`n == 0`: any u64). Zero is the simplest value.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(rng) => {
                let r = rng.next();
                if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let r = self.tape.get(self.rec.len()).copied().unwrap_or(0);
                if n == 0 { r } else { r.min(n - 1) }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(format!("{v},").as_bytes());
        }
        v
    }
    /// `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        self.draw(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True once in `n` (shrinks to false).
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut r = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w { return i; }
            r -= w;
        }
        ws.len() - 1
    }
    /// A length, mostly small, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.draw(8) {
            0..=3 => self.below(max.min(6) + 1),
            4..=6 => self.below(max.min(40) + 1),
            _ => self.below(max + 1),
        }
    }
    /// `[0, 1)`, 24 bits.
    pub fn unit(&mut self) -> f32 {
        self.draw(1 << 24) as f32 / (1u32 << 24) as f32
    }
    /// `[0, 1]` with the end points and simple fractions likely.
    pub fn ratio(&mut self) -> f32 {
        match self.draw(8) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            3 => self.draw(17) as f32 / 16.0,
            _ => self.unit(),
        }
    }
    /// Uniform in `[-m, m]`, simplest value 0.
    pub fn sym(&mut self, m: f32) -> f32 {
        let s = self.draw(2);
        let v = self.draw(1 << 24) as f32 / ((1u32 << 24) - 1) as f32 * m;
        if s == 1 { -v } else { v }
    }
    /// A "nice" real: small integers, fractions or uniform.
    pub fn real(&mut self, m: f32) -> f32 {
        match self.draw(6) {
            0 => 0.0,
            1 => self.irange(-3, 3) as f32,
            2 => self.sym(1.0),
            _ => self.sym(m),
        }
    }
    /// Any finite f32 bit pattern, biased to boundaries.
    pub fn finite(&mut self) -> f32 {
        match self.draw(8) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e-45, f32::EPSILON]),
            1 | 2 => self.sym(10.0),
            3 => self.sym(1e6),
            _ => loop {
                let f = f32::from_bits(self.draw(1 << 32) as u32);
                if f.is_finite() { return f; }
                // keep replay total: an exhausted tape draws 0 -> 0.0, finite
            },
        }
    }
}

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub want_desc: bool,
    pub desc: String,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() { self.desc.push_str("; "); }
            let mut s = f();
            if s.len() > 1200 { 
                let mut n = 1200; while !s.is_char_boundary(n) { n -= 1; }
                s.truncate(n); s.push_str("...");
            }
            self.desc.push_str(&s);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    pub run: fn(&mut Src, &mut Case) -> Res,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: &'static [Facet],
}

pub fn case_seed(seed: u64, prop: &str, facet: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), mix(hash_str(facet), idx))
}

pub fn tape_hash(facet: &str, t: &[u64]) -> u64 {
    let mut h = hash_str(facet);
    for v in t {
        h = (h.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    h ^ (h >> 29)
}

/// Generic tape shrinker; `fails` re-runs a candidate and returns the
/// normalised tape of the run when it still fails.
pub fn shrink(mut best: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, mut budget: impl FnMut() -> bool) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if !budget() { return best; }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                match fails(&cand) {
                    Some(t) if better(&t, &best) => best = t,
                    _ => i += size,
                }
            }
            if size == 1 { break; }
            size = (size / 2).max(1);
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    if !budget() { return best; }
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(t) = fails(&cand) {
                        if better(&t, &best) { best = t; }
                    }
                }
                i += size;
            }
            if size == 1 { break; }
            size = (size / 2).max(1);
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut steps = 0;
            while lo < hi && steps < 26 {
                if !budget() { return best; }
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match fails(&cand) {
                    Some(t) if better(&t, &best) => {
                        best = t;
                        if i >= best.len() { break; }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}
