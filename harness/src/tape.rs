//! Choice tape: every random decision of a case is one bounded draw. A case is replayed and
//! shrunk by editing the recorded draws; smaller draws mean simpler cases by convention.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    trace: Option<std::fs::File>,
    /// one long value per case at most
    pub long: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape: Vec::new(), pos: 0, trace: None, long: false }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, tape, pos: 0, trace: None, long: false }
    }
    /// Write every draw to a file at once.
    pub fn trace(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }
    /// A number in `0..n` (`n == 0`: all of `u64`).
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(rng) => {
                let raw = rng.next();
                let v = if n == 0 { raw } else { raw % n };
                self.tape.push(v);
                if let Some(f) = &mut self.trace {
                    use std::io::Write;
                    let _ = writeln!(f, "{v}");
                }
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if n != 0 && v >= n { n - 1 } else { v }
            }
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64) as usize
    }
    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // draw 0 keeps the element in place
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn tape(&self) -> Vec<u64> {
        let n = self.pos.min(self.tape.len());
        self.tape[..n].to_vec()
    }
}

/// Minimise `tape` while `fails` keeps returning true, with at most `budget` executions.
pub fn shrink(mut tape: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut left = budget;
    let mut try_ = |cand: &[u64], left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        fails(cand)
    };
    loop {
        let before = tape.clone();
        // cut the tail, then delete chunks
        let mut size = tape.len().max(1);
        while size >= 1 {
            let mut i = tape.len().saturating_sub(size);
            loop {
                if i < tape.len() {
                    let mut cand = tape.clone();
                    cand.drain(i..(i + size).min(tape.len()));
                    if try_(&cand, &mut left) {
                        tape = cand;
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size);
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8;
        while size >= 1 {
            let mut i = 0;
            while i < tape.len() {
                let end = (i + size).min(tape.len());
                if tape[i..end].iter().any(|v| *v != 0) {
                    let mut cand = tape.clone();
                    cand[i..end].fill(0);
                    if try_(&cand, &mut left) {
                        tape = cand;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // minimise single values
        for i in 0..tape.len() {
            let (mut lo, mut hi) = (0u64, tape[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = tape.clone();
                cand[i] = mid;
                if try_(&cand, &mut left) {
                    tape = cand;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if left == 0 {
                    break;
                }
            }
        }
        if tape == before || left == 0 {
            break;
        }
    }
    while tape.last() == Some(&0) {
        tape.pop();
    }
    tape
}
