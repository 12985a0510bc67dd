//! The choice source: every decision of a run is drawn here and logged.
//! Stream 0 (W) decides the workload and configuration, stream 1 (S) decides
//! schedule, timing and faults. A replay is exactly these two lists.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0x2545_F491_4F6C_DD1D));
    r.next()
}

pub struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub log: Vec<u32>,
}

impl Stream {
    pub fn random(seed: u64) -> Self {
        Stream { rng: Rng::new(seed), replay: None, pos: 0, log: Vec::new() }
    }
    pub fn replay(list: Vec<u32>) -> Self {
        Stream { rng: Rng::new(0), replay: Some(list), pos: 0, log: Vec::new() }
    }
    /// Uniform in 0..n. 0 must be the simplest option.
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(l) => {
                let v = l.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            None => ((self.rng.next() >> 32).wrapping_mul(n as u64) >> 32) as u32,
        };
        self.log.push(v);
        v
    }
    /// True with probability num/den; false is the simple option.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        match &self.replay {
            Some(l) => {
                let v = l.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                self.log.push(v.min(1));
                v != 0
            }
            None => {
                let r = ((self.rng.next() >> 32).wrapping_mul(den as u64) >> 32) as u32;
                let v = (r < num) as u32;
                self.log.push(v);
                v != 0
            }
        }
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        match &self.replay {
            Some(l) => {
                let v = l.get(self.pos).copied().unwrap_or(0) as usize;
                self.pos += 1;
                let v = v.min(w.len() - 1);
                self.log.push(v as u32);
                v
            }
            None => {
                let tot: u32 = w.iter().sum();
                let mut r = ((self.rng.next() >> 32).wrapping_mul(tot as u64) >> 32) as u32;
                let mut i = 0;
                while r >= w[i] {
                    r -= w[i];
                    i += 1;
                }
                self.log.push(i as u32);
                i
            }
        }
    }
}
