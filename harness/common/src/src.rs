/// SplitMix64: small, seedable, good enough for case generation.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: None }
    }
    /// Number of choices consumed so far.
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A number in 0..bound. Past the end of a replayed tape the simplest choice (0) is made.
    pub fn draw(&mut self, bound: u64) -> u64 {
        debug_assert!(bound > 0);
        let v = if let Some(r) = &mut self.rng {
            let v = r.next() % bound;
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            self.tape[self.pos] % bound
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range; shrinks towards lo.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn picks<T: Clone>(&mut self, xs: &[T]) -> T {
        self.pick(xs).clone()
    }
    /// Index chosen by weight; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A random non-empty or empty subset, keeping order.
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: u64, den: u64) -> Vec<T> {
        xs.iter().filter(|_| self.chance(num, den)).cloned().collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
