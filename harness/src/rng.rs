#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5851f42d4c957f2d);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
    /// An index that is not below n: just above, at and around the next powers of two, far above,
    /// and (as negative numbers) near the top of the machine word.
    pub fn beyond(&mut self, n: usize) -> i64 {
        let p = n.max(1).next_power_of_two() as i64;
        let n = n as i64;
        let k = match self.below(9) {
            0 | 1 => n,
            2 => n + 1 + self.range(0, 40),
            3 => p + self.range(0, 1),
            4 => 2 * p - self.range(0, 1),
            5 => 2 * p + n,
            6 => *self.pick(&[i32::MAX as i64, i32::MIN as i64]),
            7 => -1,
            _ => -self.range(1, 2 * p),
        };
        if k < 0 { k } else { k.max(n) }
    }
    /// A size in lo..=hi biased towards small values, powers of two and their neighbours.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let k = match self.below(4) {
            0 => self.range(lo as i64, (lo + 9).min(hi) as i64) as usize,
            1 => {
                let mut p = 1usize << self.below(16);
                while p > hi {
                    p >>= 1;
                }
                (p + self.below(3)).saturating_sub(1)
            }
            2 => self.range(lo as i64, hi as i64) as usize,
            _ => {
                // log-uniform
                let b = (usize::BITS - hi.leading_zeros()) as usize;
                let e = self.below(b.max(1));
                (1usize << e) + self.below(1usize << e)
            }
        };
        k.clamp(lo, hi)
    }
}
