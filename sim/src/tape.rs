//! The only source of choices in a simulated run: one seed -> one tape -> one execution.

/// splitmix64 / xoshiro256**: every random choice of a run comes from here.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Digest::new();
    h.bytes(s.as_bytes());
    h.get()
}

/// Seed of run `idx` of a property's batch.
pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = verif_seed ^ hash_str(prop).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x);
    splitmix(&mut x)
}

pub struct Tape {
    rng: Option<Rng>,
    rec: Vec<u64>,
    pos: usize,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), rec: Vec::new(), pos: 0 }
    }
    /// Replays recorded choices; past the end every choice is 0 (the simplest one).
    pub fn replay(rec: Vec<u64>) -> Self {
        Tape { rng: None, rec, pos: 0 }
    }
    /// A choice in 0..n (n = 0: any u64). 0 is the simplest choice.
    pub fn choose(&mut self, n: u64) -> u64 {
        let v = match self.rng.as_mut() {
            Some(r) => {
                let raw = r.next();
                let v = if n == 0 { raw } else { ((raw as u128 * n as u128) >> 64) as u64 };
                self.rec.push(v);
                v
            }
            None => {
                let raw = self.rec.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    raw
                } else {
                    raw % n
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.choose(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.choose(den) >= den - num
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.choose(tot.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        ws.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn used(&self) -> Vec<u64> {
        match self.rng {
            Some(_) => self.rec.clone(),
            None => {
                let mut v = self.rec.clone();
                v.truncate(self.pos);
                v
            }
        }
    }
}

/// FNV-1a based running digest (order sensitive).
#[derive(Clone, Copy)]
pub struct Digest(u64, u64);
impl Digest {
    pub fn new() -> Self {
        Digest(0xcbf29ce484222325, 0x9E3779B97F4A7C15)
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
        }
    }
    pub fn u64(&mut self, x: u64) {
        self.0 ^= x;
        self.0 = self.0.wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1 ^ x).rotate_left(23).wrapping_mul(0xBF58476D1CE4E5B9).wrapping_add(self.0);
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0 ^ self.1.rotate_left(32);
        splitmix(&mut x)
    }
}
