//! Source of generator choices. Every random decision of a case is drawn from here and recorded, so a
//! case is a finite sequence of integers that can be replayed and shrunk independently of its generator.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_words(ws: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &w in ws {
        h = mix(h ^ w.wrapping_mul(0x100000001b3));
    }
    mix(h ^ ws.len() as u64)
}

static TAP: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static TAP_CAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Also store every choice in shared memory (length first), to recover the choices of a crashing case.
pub fn set_tap(p: *mut u64, cap: usize) {
    TAP.store(p, std::sync::atomic::Ordering::Relaxed);
    TAP_CAP.store(cap, std::sync::atomic::Ordering::Relaxed);
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, rec: vec![] }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { state: 0, replay: Some(v), pos: 0, rec: vec![] }
    }
    /// uniform in 0..n ; smaller is simpler
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            None => {
                self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
                let r = mix(self.state);
                ((r as u128 * n as u128) >> 64) as u64
            }
            Some(v) => {
                let r = v.get(self.pos).copied().unwrap_or(0);
                if r < n {
                    r
                } else {
                    r % n
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        let tap = TAP.load(std::sync::atomic::Ordering::Relaxed);
        if !tap.is_null() && self.rec.len() < TAP_CAP.load(std::sync::atomic::Ordering::Relaxed) {
            unsafe {
                tap.add(self.rec.len()).write_volatile(v);
                tap.write_volatile(self.rec.len() as u64);
            }
        }
        v
    }
    pub fn bits(&mut self, b: u32) -> u64 {
        if b == 0 {
            return 0;
        }
        if b >= 64 {
            let v = self.below(u64::MAX);
            return v;
        }
        self.below(1u64 << b)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        // zero-centred ranges shrink towards zero
        let n = (hi - lo + 1) as u64;
        let v = self.below(n) as i64;
        if lo < 0 && hi > 0 {
            // 0, 1, -1, 2, -2, ... while both sides last
            let m = hi.min(-lo);
            if v <= 2 * m {
                if v % 2 == 1 {
                    (v + 1) / 2
                } else {
                    -(v / 2)
                }
            } else if hi > m {
                v - m
            } else {
                -(v - m)
            }
        } else {
            lo + v
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut v = self.below(tot);
        for (i, &w) in ws.iter().enumerate() {
            if v < w as u64 {
                return i;
            }
            v -= w as u64;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn drawn(&self) -> usize {
        self.pos
    }
}
