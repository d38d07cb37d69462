//! The choice-sequence engine: every generated case is a pure function of a
//! sequence of bounded integer draws. Recording the draws gives replay and
//! integrated shrinking for free (the Hypothesis construction).

/// splitmix64, used to derive independent streams.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xdead_beef_cafe_f00d) | 1)
    }

    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
}

const MAX_CHOICES: usize = 200_000;

pub struct Src {
    replay: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { replay: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src { replay: choices, pos: 0, rng: None, rec: vec![] }
    }

    /// Replays a prefix and continues randomly (used by the coverage mode).
    pub fn mutate(choices: Vec<u64>, seed: u64) -> Src {
        Src { replay: choices, pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }

    /// A number in `0..n`. Zero is always the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            if v >= n { n - 1 } else { v }
        } else if self.rec.len() >= MAX_CHOICES {
            0
        } else if let Some(ref mut rng) = self.rng {
            rng.next() % n
        } else {
            0
        };
        self.pos += 1;
        if self.rec.len() < MAX_CHOICES {
            self.rec.push(v);
        }
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }

    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }

    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'t, T>(&mut self, items: &'t [T]) -> &'t T {
        &items[self.idx(items.len())]
    }

    /// An index, chosen with the given relative weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// Loop condition for lists with an expected length of `avg`, which is
    /// bounded by `max`. Deleting one iteration's draws shortens the list.
    pub fn more(&mut self, have: usize, avg: u64, max: usize) -> bool {
        have < max && self.chance(avg, avg + 1)
    }
}

/// Shrinks a failing sequence. `fails` returns true if the candidate still
/// fails in the same way, and stores the recorded (normalised) choices.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(start: Vec<u64>, mut budget: usize, mut fails: F) -> Vec<u64> {
    let mut best = start;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(40);

    fn smaller(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }

    macro_rules! attempt {
        ($cand: expr) => {{
            let cand: Vec<u64> = $cand;
            if budget == 0 || std::time::Instant::now() > deadline {
                return best;
            }
            if smaller(&cand, &best) {
                budget -= 1;
                match fails(&cand) {
                    Some(rec) => {
                        best = if smaller(&rec, &cand) || rec.len() <= cand.len() && !smaller(&cand, &rec) { rec } else { cand };
                        true
                    }
                    None => false,
                }
            } else {
                false
            }
        }};
    }

    loop {
        let before = best.clone();

        // Delete chunks.
        for &size in &[256usize, 64, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let from = i.saturating_sub(size);
                if i - from == size && i <= best.len() {
                    let mut c = best.clone();
                    c.drain(from..i);
                    if !attempt!(c.clone()) {
                        // Also try to lower an earlier count when deleting.
                        if from > 0 && size <= 8 && c[from - 1] > 0 {
                            c[from - 1] -= 1;
                            attempt!(c);
                        }
                    }
                }
                i = if size > 8 { from } else { i - 1 };
                if i > best.len() {
                    i = best.len();
                }
            }
        }

        // Zero chunks.
        for &size in &[16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + size] {
                        *v = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }

        // Minimise single values.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            if i >= best.len() || best[i] != mid {
                                break;
                            }
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }

        if best == before {
            return best;
        }
    }
}
