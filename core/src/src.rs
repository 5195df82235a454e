//! Data provider: decodes a tape of u32 words (generated and shrunk by proptest) into structured
//! choices. All maps are monotone in the word, and word 0 always decodes to the simplest choice,
//! so that proptest's shrinking towards 0 / shorter tapes simplifies the decoded case.

pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Src<'a> {
        Src { data, pos: 0 }
    }

    pub fn word(&mut self) -> u32 {
        let r = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        r
    }

    /// 0..n (exclusive)
    pub fn below(&mut self, n: u32) -> u32 {
        let w = self.word();
        if n <= 1 {
            return 0;
        }
        ((w as u64 * n as u64) >> 32) as u32
    }

    /// lo..=hi
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        debug_assert!(lo <= hi);
        let n = (hi as u64 - lo as u64) + 1;
        let w = self.word() as u64;
        lo + ((w * n) >> 32) as u32
    }

    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }

    /// true with probability num/den; word 0 decodes to false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let v = self.below(den);
        v >= den - num
    }

    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.index(xs.len());
        &xs[i]
    }

    /// a real in [lo, hi], quantised to 2^-10 of the range
    pub fn real(&mut self, lo: f64, hi: f64) -> f32 {
        let v = self.below(1025) as f64 / 1024.0;
        (lo + (hi - lo) * v) as f32
    }

    /// one of the list, or any number between the bounds
    pub fn either(&mut self, list: &[f32], lo: f32, hi: f32) -> f32 {
        if self.chance(1, 3) {
            (lo as f64 + (hi as f64 - lo as f64) * (self.word() as f64 / u32::MAX as f64)) as f32
        } else {
            *self.pick(list)
        }
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// How tensor contents are derived from a tape. `Vals` is a pure function of two words.
#[derive(Clone, Copy, Debug)]
pub struct Vals {
    pub mode: Mode,
    pub seed: u32,
    /// all values are multiplied by two to this power
    pub exp: i8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// i+1: every element distinct
    Iota,
    /// integers in -lim..=lim
    Ints(i32),
    /// reals in [lo,hi]
    Real(f32, f32),
    /// reals in ±[lo,hi], both signs, bounded away from 0
    Signed(f32, f32),
    /// log-uniform magnitudes 2^lo..2^hi, both signs
    Log(i32, i32),
    /// log-uniform positive
    LogPos(i32, i32),
    /// few distinct values: many ties
    Ties(u32),
    /// distinct integers in random order (hash ranks)
    Distinct,
    Const(f32),
    /// small numbers, or zeros, and one number that stands out in every line: stride, extent,
    /// place in the line, value, size of the others
    Spot(u32, u32, u32, f32, f32),
}

impl Vals {
    pub fn at(&self, i: usize) -> f32 {
        self.plain(i) * (self.exp as f32).exp2()
    }

    fn plain(&self, i: usize) -> f32 {
        let h = mix(((self.seed as u64) << 32) ^ (i as u64).wrapping_mul(0x9e37_79b9));
        let u = (h >> 11) as f64 / (1u64 << 53) as f64;
        match self.mode {
            Mode::Iota => i as f32 + 1.0,
            Mode::Ints(lim) => ((h % (2 * lim as u64 + 1)) as i64 - lim as i64) as f32,
            Mode::Real(lo, hi) => (lo as f64 + (hi as f64 - lo as f64) * u) as f32,
            Mode::Signed(lo, hi) => {
                let m = (lo as f64 + (hi as f64 - lo as f64) * u) as f32;
                if h & 1 == 0 {
                    m
                } else {
                    -m
                }
            }
            Mode::Log(lo, hi) => {
                let m = (lo as f64 + (hi - lo) as f64 * u).exp2() as f32;
                if h & 1 == 0 {
                    m
                } else {
                    -m
                }
            }
            Mode::LogPos(lo, hi) => (lo as f64 + (hi - lo) as f64 * u).exp2() as f32,
            Mode::Ties(k) => ((h % k as u64) as i64 - (k as i64) / 2) as f32,
            Mode::Distinct => {
                unreachable!("Distinct needs the length: use fill")
            }
            Mode::Const(c) => c,
            Mode::Spot(stride, len, pos, v, noise) => {
                if (i / stride as usize) % len as usize == pos as usize {
                    v
                } else {
                    noise * if h & 1 == 0 { 0.1 + 0.9 * u as f32 } else { -0.1 - 0.9 * u as f32 }
                }
            }
        }
    }

    pub fn fill(&self, n: usize) -> Vec<f32> {
        match self.mode {
            Mode::Distinct => {
                let mut idx: Vec<usize> = (0..n).collect();
                let seed = self.seed as u64;
                if seed != 0 {
                    idx.sort_by_key(|&i| mix((seed << 32) ^ i as u64));
                }
                let mut out = vec![0.0; n];
                let half = (n / 2) as i64;
                for (rank, &i) in idx.iter().enumerate() {
                    out[i] = (rank as i64 - half) as f32 * (self.exp as f32).exp2();
                }
                out
            }
            _ => (0..n).map(|i| self.at(i)).collect(),
        }
    }
}
