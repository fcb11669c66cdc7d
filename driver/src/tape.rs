//! Choice tape: every random decision of a generated case is a draw from this
//! object.  A run records the draws; shrinking edits the recorded tape and
//! regenerates; a replay file is just the tape.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD134_2543_DE82_EF95) ^ b.rotate_left(32));
    r.next();
    r.next() ^ b
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn fresh(seed: u64) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// Fresh draws after a fixed prefix.
    pub fn prefixed(tape: Vec<u64>, seed: u64) -> Src {
        Src { tape, pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// A source with a fixed prefix whose later draws continue `parent`.
    pub fn chain(tape: Vec<u64>, parent: &mut Src) -> Src {
        let seed = parent.seed();
        Src { tape, pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None }
    }
    /// Uniform draw in 0..n; 0 is by convention the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                if self.pos < self.tape.len() {
                    self.tape[self.pos] % n
                } else {
                    let v = r.below(n);
                    self.tape.push(v);
                    v
                }
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den (false is the simple choice)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
