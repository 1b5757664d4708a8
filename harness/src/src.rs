//! Choice-sequence source: every random decision of a case is one recorded
//! u64 in `0..=max`.  A failing case is replayed and shrunk as its list of
//! choices (0 is always the simplest choice; choices past the end read 0).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
  }
  #[inline]
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut r = Rng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b);
  r.next() ^ r.next().rotate_left(17)
}

pub fn hash_str(s: &str) -> u64 {
  hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf2_9ce4_8422_2325;
  for b in s {
    h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
  }
  h
}

/// Source of choices for one case.
pub struct Src {
  rng: Option<Rng>,
  script: Vec<u64>,
  pub log: Vec<u64>,
}

impl Src {
  pub fn random(seed: u64) -> Self {
    Src { rng: Some(Rng::new(seed)), script: vec![], log: vec![] }
  }
  pub fn replay(script: Vec<u64>) -> Self {
    Src { rng: None, script, log: vec![] }
  }
  /// Uniform in `0..=max`.
  pub fn upto(&mut self, max: u64) -> u64 {
    let v = match &mut self.rng {
      Some(r) => {
        let x = r.next();
        if max == u64::MAX {
          x
        } else {
          ((x as u128 * (max as u128 + 1)) >> 64) as u64
        }
      }
      None => {
        let i = self.log.len();
        self.script.get(i).copied().unwrap_or(0).min(max)
      }
    };
    self.log.push(v);
    v
  }
  /// Uniform in `lo..=hi`; shrinks towards `lo`.
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.upto(hi - lo)
  }
  pub fn us(&mut self, lo: usize, hi: usize) -> usize {
    self.range(lo as u64, hi as u64) as usize
  }
  pub fn i(&mut self, lo: i64, hi: i64) -> i64 {
    (lo as i128 + self.upto((hi as i128 - lo as i128) as u64) as i128) as i64
  }
  /// True with probability num/den; shrinks to false.
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    // false for 0 so that shrinking goes to false
    self.upto(den - 1) >= den - num
  }
  pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
    xs[self.upto(xs.len() as u64 - 1) as usize]
  }
  /// Index chosen by weight.
  pub fn weighted(&mut self, w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let mut x = self.upto(total - 1);
    for (i, &k) in w.iter().enumerate() {
      if x < k {
        return i;
      }
      x -= k;
    }
    w.len() - 1
  }
  /// A seed for cheap bulk data (pixels); one choice.
  pub fn bulk(&mut self) -> Rng {
    Rng::new(self.upto(u32::MAX as u64))
  }
  pub fn bytes(&mut self, max: usize) -> Vec<u8> {
    let n = self.us(0, max);
    let mut r = self.bulk();
    (0..n).map(|_| r.next() as u8).collect()
  }
}
