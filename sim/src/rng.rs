//! The only source of randomness: splitmix64/xorshift seeded from VERIF_SEED,
//! with every draw recorded so that a run is replayable from its tapes.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as u32
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64) < p * ((1u64 << 53) as f64)
    }
}

/// A recorded stream of decisions. Value 0 always means the plain choice
/// (keep running, no fault, smallest case), and a replay that runs off the end
/// of its tape gets zeros.
pub struct Tape {
    pub rng: Option<Rng>,
    pub tape: Vec<u32>,
    pub pos: usize,
    /// spans [start,end) of nested generator calls, for the minimiser
    pub spans: Vec<(u32, u32)>,
}
impl Tape {
    pub fn gen(seed: u64) -> Tape {
        Tape { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, spans: vec![] }
    }
    pub fn replay(t: Vec<u32>) -> Tape {
        Tape { rng: None, tape: t, pos: 0, spans: vec![] }
    }
    #[inline]
    pub fn draw(&mut self, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match self.rng.as_mut() {
            Some(r) => {
                let v = f(r);
                if self.tape.len() < 400_000 {
                    self.tape.push(v);
                }
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.draw(|r| r.below(n)) % n
    }
    /// uniform in lo..=hi (lo is the simplest value)
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u32) as i64
    }
    /// true with probability p; false is the simplest
    pub fn chance(&mut self, p: f64) -> bool {
        self.draw(|r| r.chance(p) as u32) & 1 == 1
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u32 = ws.iter().sum();
        let v = self.draw(|r| {
            let mut x = r.below(tot);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u32;
                }
                x -= w;
            }
            0
        }) as usize
            % ws.len();
        if ws[v] == 0 {
            return ws.iter().position(|w| *w > 0).unwrap_or(0);
        }
        v
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Tape) -> T) -> T {
        let s = self.pos as u32;
        let r = f(self);
        if self.pos as u32 > s {
            self.spans.push((s, self.pos as u32));
        }
        r
    }
    /// up to `max` items, each preceded by a continue bit
    pub fn list<T>(&mut self, max: usize, p: f64, mut f: impl FnMut(&mut Tape) -> T) -> Vec<T> {
        let mut v = vec![];
        while v.len() < max {
            let s = self.pos as u32;
            if !self.chance(p) {
                break;
            }
            v.push(f(self));
            self.spans.push((s, self.pos as u32));
        }
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u32) as usize;
        &v[i]
    }
}
