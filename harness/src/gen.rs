//! Choice-sequence generation: every random decision of a case is one bounded integer drawn from
//! a recorded sequence, so that a case replays and shrinks by editing that sequence.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
}

pub struct Gen {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
    /// index of the case within its part: lets a part enumerate a finite space
    pub index: u64,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub text: String,
}

impl Gen {
    pub fn random(seed: u64, index: u64) -> Self {
        Self {
            rng: Some(Rng::new(mix(seed ^ mix(index.wrapping_add(0x1234567))))),
            replay: vec![],
            rec: vec![],
            index,
            labels: vec![],
            nontrivial: false,
            text: String::new(),
        }
    }
    pub fn replaying(choices: Vec<u64>, index: u64) -> Self {
        Self {
            rng: None,
            replay: choices,
            rec: vec![],
            index,
            labels: vec![],
            nontrivial: false,
            text: String::new(),
        }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                if n == u64::MAX {
                    r.next()
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            },
            None => {
                // a reduced sequence can keep a generator looping for a value it never gets
                if self.rec.len() > self.replay.len() + 200_000 {
                    panic!("choices exhausted");
                }
                let v = self.replay.get(self.rec.len()).copied().unwrap_or(0);
                v.min(n - 1)
            },
        };
        self.rec.push(v);
        v
    }
    /// inclusive range, shrinks towards lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den, shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len() as u64) as usize;
        &s[i]
    }
    pub fn pickc<T: Copy>(&mut self, s: &[T]) -> T {
        *self.pick(s)
    }
    /// `n` distinct values of the slice, in slice order when `sorted`
    pub fn subset<T: Clone>(&mut self, s: &[T], n: usize, sorted: bool) -> Vec<T> {
        let mut idx: Vec<usize> = (0..s.len()).collect();
        let n = n.min(s.len());
        for i in 0..n {
            let j = i + self.below((s.len() - i) as u64) as usize;
            idx.swap(i, j);
        }
        let mut idx: Vec<usize> = idx[..n].to_vec();
        if sorted {
            idx.sort();
        }
        idx.iter().map(|i| s[*i].clone()).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in 0..v.len() {
            let j = i + self.below((v.len() - i) as u64) as usize;
            v.swap(i, j);
        }
    }
    /// mantissa biased to interesting magnitudes: |v| < 10^digits
    pub fn int_digits(&mut self, digits: u32, signed: bool) -> i64 {
        let d = self.below(digits as u64 + 1) as u32;
        let v = if d == 0 { 0 } else { self.below(10u64.pow(d)) as i64 };
        if signed && self.bool() {
            -v
        } else {
            v
        }
    }
    pub fn string(&mut self, alphabet: &[u8], lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n).map(|_| self.pickc(alphabet) as char).collect()
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub const UPPER: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub const DIGITS: &[u8] = b"0123456789";
pub const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
