//! The choice tape: every decision of a simulated run (input, schedule, fault, delay) is one `choose`.
//! A run is a pure function of its tape, so a tape is a complete replay file and can be minimised.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    r.next();
    r.next()
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    Rng(h).next()
}

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    /// write each choice out as it is made
    pub echo: bool,
}

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Self { replay: None, pos: 0, rec: Vec::with_capacity(4096), rng: Rng(seed), echo: false }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self { replay: Some(tape), pos: 0, rec: Vec::with_capacity(4096), rng: Rng(0), echo: false }
    }
    /// A number below `n` (0 when `n` is 0 or 1). 0 is the simplest choice.
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            None => self.rng.next() % n,
            Some(t) => t.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        if self.echo {
            use std::io::Write;
            let mut o = std::io::stdout().lock();
            let _ = o.write_all(&v.to_le_bytes());
            let _ = o.flush();
        }
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.choose(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// A full 64-bit number, for seeding a part of the simulator.
    pub fn word(&mut self) -> u64 {
        self.choose(u64::MAX)
    }
    /// Small numbers mostly, sometimes up to `hi`.
    pub fn small(&mut self, hi: usize) -> usize {
        if hi <= 4 || self.chance(1, 4) {
            self.n(hi + 1)
        } else {
            self.n(hi.min(4) + 1)
        }
    }
}

/// Minimise a failing tape. `fails` must be true for the tape it is given.
pub fn minimise(tape: Vec<u64>, mut fails: impl FnMut(&[u64]) -> bool, mut more: impl FnMut() -> bool) -> Vec<u64> {
    let mut best = tape;
    loop {
        let before = best.clone();
        // remove blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if !more() {
                    return best;
                }
                if i < best.len() {
                    let mut c = best.clone();
                    c.drain(i..(i + size).min(c.len()));
                    if fails(&c) {
                        best = c;
                    } else {
                        // zero the block
                        let mut c = best.clone();
                        let end = (i + size).min(c.len());
                        if c[i..end].iter().any(|&x| x != 0) {
                            c[i..end].fill(0);
                            if fails(&c) {
                                best = c;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single choices
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            for t in [best[i] / 2, best[i] - 1] {
                if !more() {
                    return best;
                }
                let mut c = best.clone();
                c[i] = t;
                if t < hi && fails(&c) {
                    best = c;
                    hi = t;
                }
            }
            while lo + 1 < hi {
                if !more() {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if fails(&c) {
                    best = c;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}
