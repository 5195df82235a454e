//! Reference tensors: dims (first dimension fastest), minibatch size, tape ids; plus the reference
//! rules for shapes. Written from the documented meaning of each operation with plain index loops.
use crate::tape::Tape;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Sh {
    pub dims: Vec<u32>, // trailing 1s removed
    pub batch: u32,
}

impl Sh {
    pub fn new(dims: &[u32], batch: u32) -> Sh {
        let mut d = dims.to_vec();
        while d.last() == Some(&1) {
            d.pop();
        }
        Sh { dims: d, batch }
    }
    pub fn d(&self, i: u32) -> u32 {
        self.dims.get(i as usize).copied().unwrap_or(1)
    }
    pub fn depth(&self) -> u32 {
        self.dims.len() as u32
    }
    pub fn volume(&self) -> usize {
        self.dims.iter().fold(1usize, |a, &x| a.saturating_mul(x as usize))
    }
    pub fn size(&self) -> usize {
        self.volume().saturating_mul(self.batch as usize)
    }
    pub fn is_scalar(&self) -> bool {
        self.dims.is_empty()
    }
    pub fn is_matrix(&self) -> bool {
        self.dims.len() <= 2
    }
    pub fn compat(&self, o: &Sh) -> bool {
        self.batch == o.batch || self.batch == 1 || o.batch == 1
    }
    pub fn with_dim(&self, dim: u32, m: u32) -> Sh {
        let mut d = self.dims.clone();
        while d.len() <= dim as usize {
            d.push(1);
        }
        d[dim as usize] = m;
        Sh::new(&d, self.batch)
    }
    pub fn with_batch(&self, b: u32) -> Sh {
        Sh { dims: self.dims.clone(), batch: b }
    }
    /// dims padded with 1 up to 8
    pub fn full(&self) -> [usize; 8] {
        let mut r = [1usize; 8];
        for (i, &d) in self.dims.iter().enumerate() {
            r[i] = d as usize;
        }
        r
    }
    pub fn strides(&self) -> [usize; 8] {
        let f = self.full();
        let mut s = [1usize; 8];
        for i in 1..8 {
            s[i] = s[i - 1] * f[i - 1];
        }
        s
    }
    /// multi-index of flat position within one sample
    pub fn unflat(&self, mut p: usize) -> [usize; 8] {
        let f = self.full();
        let mut r = [0usize; 8];
        for i in 0..8 {
            r[i] = p % f[i];
            p /= f[i];
        }
        r
    }
    pub fn flat(&self, ix: &[usize; 8]) -> usize {
        let s = self.strides();
        (0..8).map(|i| ix[i] * s[i]).sum()
    }
    pub fn show(&self) -> String {
        format!("{:?}x{}", self.dims, self.batch)
    }
}

#[derive(Clone, Debug)]
pub struct Rt {
    pub sh: Sh,
    pub id: Vec<u32>,
}

impl Rt {
    pub fn from_data(t: &mut Tape, sh: &Sh, data: &[f32]) -> Rt {
        assert_eq!(sh.size(), data.len());
        Rt { sh: sh.clone(), id: data.iter().map(|&x| t.leaf(x)).collect() }
    }

    /// element at multi-index ix of sample b (batch-1 tensors repeat)
    pub fn at(&self, ix: &[usize; 8], b: usize) -> u32 {
        let bb = if self.sh.batch == 1 { 0 } else { b };
        self.id[bb * self.sh.volume() + self.sh.flat(ix)]
    }

    pub fn flat_at(&self, i: usize, b: usize) -> u32 {
        let bb = if self.sh.batch == 1 { 0 } else { b };
        self.id[bb * self.sh.volume() + i]
    }

    /// builds a tensor of shape sh by f(multi-index, sample)
    pub fn build(sh: &Sh, mut f: impl FnMut(&[usize; 8], usize) -> u32) -> Rt {
        let vol = sh.volume();
        let mut id = Vec::with_capacity(sh.size());
        for b in 0..sh.batch as usize {
            for p in 0..vol {
                let ix = sh.unflat(p);
                id.push(f(&ix, b));
            }
        }
        Rt { sh: sh.clone(), id }
    }

    pub fn map(&self, mut f: impl FnMut(u32) -> u32) -> Rt {
        Rt { sh: self.sh.clone(), id: self.id.iter().map(|&i| f(i)).collect() }
    }

    pub fn vals(&self, t: &Tape) -> Vec<f64> {
        self.id.iter().map(|&i| t.val(i)).collect()
    }
}
