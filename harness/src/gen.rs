//! Seeded source of random choices.  Every random decision of a case comes from one `G`,
//! which is a pure function of (seed, property, case index).

pub struct G {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl G {
    pub fn new(seed: u64, prop: &str, index: u64) -> G {
        let mut h = seed ^ 0xD1B54A32D192ED03;
        for b in prop.bytes() {
            h = h.wrapping_mul(0x100000001B3) ^ b as u64;
        }
        let mut x = h ^ index.wrapping_mul(0xA24BAED4963EE407);
        let mut s = [0; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        G { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() >> 32) * n as u64 >> 32) as usize
    }
    /// lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn unit(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn range(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit()
    }
    pub fn sym(&mut self, a: f32) -> f32 {
        self.range(-a, a)
    }
    pub fn chance(&mut self, p: f32) -> bool {
        self.unit() < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    /// Log-uniform in [lo, hi].
    pub fn logu(&mut self, lo: f32, hi: f32) -> f32 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp()
    }
    pub fn dir(&mut self) -> [f32; 3] {
        loop {
            let v = [self.sym(1.0), self.sym(1.0), self.sym(1.0)];
            let l = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
            if l > 0.01 && l <= 1.0 {
                let s = 1.0 / l.sqrt();
                return [v[0] * s, v[1] * s, v[2] * s];
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
