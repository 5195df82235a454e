//! The operation vocabulary shared by the checks: which operand shapes an operation accepts, the
//! resulting shapes, and the reference result. No code under test is involved here.
use crate::rt::{Rt, Sh};
use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    // arithmetic; u8 = operand ownership variant
    Neg(u8),
    Add(u8),
    Sub(u8),
    Mul(u8),
    Div(u8),
    AddC(f32, u8),
    SubCL(f32, u8), // k - x
    SubCR(f32, u8), // x - k
    MulC(f32, u8),
    DivCL(f32, u8), // k / x
    DivCR(f32, u8), // x / k
    Pow(u8),
    PowCL(f32), // k ^ x
    Powf(f32),
    Powi(i32),
    // elementwise functions
    Sqrt,
    Abs,
    Sin,
    Cos,
    Tan,
    Exp,
    Ln,
    Tanh,
    Sigmoid,
    Softplus,
    Relu,
    Lrelu,
    Prelu(f32),
    Elu(f32),
    // reductions
    Sum(u32),
    Max(u32),
    Min(u32),
    Broadcast(u32, u32),
    Logsumexp(u32),
    LnSoftmax(u32),
    Softmax(u32),
    SoftmaxCE(u32),
    SparseSoftmaxCE(Vec<u32>, u32),
    // matrix
    Matmul(u8),
    Transpose,
    TriL(u32),
    TriU(u32),
    // data movement
    Slice(u32, u32, u32),
    Split(u32, u32),
    Pick(Vec<u32>, u32),
    Concat(u32),
    Reshape(Sh),
    Flatten,
    BatchSum,
    BatchSlice(u32, u32),
    BatchSplit(u32),
    BatchPick(Vec<u32>),
    BatchConcat,
    // contrib
    Mean(u32),
    BatchMean,
    SliceSum,
    BatchNorm(f32, bool),
    LayerNorm(f32),
    DropoutOff(f32),
    DropoutAll(f32),
}

use Op::*;

pub const LIMIT: u64 = u32::MAX as u64;

fn fits(s: Sh) -> Option<Sh> {
    if s.dims.len() > 8 {
        return None;
    }
    let mut n: u64 = s.batch as u64;
    for &d in &s.dims {
        n = n.checked_mul(d as u64)?;
        if n > LIMIT {
            return None;
        }
    }
    Some(s)
}

pub fn elementwise(a: &Sh, b: &Sh) -> Option<Sh> {
    if a.dims == b.dims && a.compat(b) {
        fits(a.with_batch(a.batch.max(b.batch)))
    } else {
        None
    }
}

/// tensor-tensor arithmetic: equal dimensions, or one operand scalar
fn arith(a: &Sh, b: &Sh) -> Option<Sh> {
    if !a.compat(b) {
        return None;
    }
    let bt = a.batch.max(b.batch);
    if a.is_scalar() {
        fits(b.with_batch(bt))
    } else if b.is_scalar() {
        fits(a.with_batch(bt))
    } else {
        elementwise(a, b)
    }
}

fn reduce(x: &Sh, dim: u32) -> Option<Sh> {
    if dim >= 8 {
        return None;
    }
    Some(x.with_dim(dim, 1))
}

fn broadcast(x: &Sh, dim: u32, size: u32) -> Option<Sh> {
    if dim < 8 && x.d(dim) == 1 && size != 0 {
        fits(x.with_dim(dim, size))
    } else {
        None
    }
}

fn pick(x: &Sh, ids: &[u32], dim: u32) -> Option<Sh> {
    let n = ids.len() as u32;
    if dim >= 8 || n == 0 || !(x.batch == n || x.batch == 1 || n == 1) {
        return None;
    }
    if ids.iter().any(|&i| i >= x.d(dim)) {
        return None;
    }
    fits(x.with_dim(dim, 1).with_batch(x.batch.max(n)))
}

impl Op {
    pub fn name(&self) -> String {
        let s = format!("{:?}", self);
        s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
    }

    /// number of operands; None = one or more
    pub fn arity(&self) -> Option<usize> {
        match self {
            Add(_) | Sub(_) | Mul(_) | Div(_) | Pow(_) | SoftmaxCE(_) | Matmul(_) => Some(2),
            Concat(_) | BatchConcat | SliceSum => None,
            BatchNorm(..) | LayerNorm(..) => Some(3),
            _ => Some(1),
        }
    }

    /// Result shapes if the call is well-formed, None if it must be rejected.
    pub fn shapes(&self, x: &[&Sh]) -> Option<Vec<Sh>> {
        let one = |s: Sh| Some(vec![s]);
        match self {
            Neg(_) | AddC(..) | SubCL(..) | SubCR(..) | MulC(..) | DivCL(..) | DivCR(..) | PowCL(_)
            | Powf(_) | Powi(_) | Sqrt | Abs | Sin | Cos | Tan | Exp | Ln | Tanh | Sigmoid
            | Softplus | Relu | Lrelu | Prelu(_) | Elu(_) | DropoutOff(_) | DropoutAll(_) => {
                one(x[0].clone())
            }
            Add(_) | Sub(_) | Mul(_) | Div(_) | Pow(_) => one(arith(x[0], x[1])?),
            Sum(d) | Max(d) | Min(d) | Logsumexp(d) | Mean(d) => one(reduce(x[0], *d)?),
            Broadcast(d, n) => one(broadcast(x[0], *d, *n)?),
            LnSoftmax(d) | Softmax(d) => {
                if *d >= 8 {
                    return None;
                }
                one(x[0].clone())
            }
            SoftmaxCE(d) => one(reduce(&elementwise(x[0], x[1])?, *d)?),
            SparseSoftmaxCE(ids, d) => one(pick(x[0], ids, *d)?),
            Matmul(_) => {
                let (a, b) = (x[0], x[1]);
                if a.is_matrix() && b.is_matrix() && a.d(1) == b.d(0) && a.compat(b) {
                    one(fits(Sh::new(&[a.d(0), b.d(1)], a.batch.max(b.batch)))?)
                } else {
                    None
                }
            }
            Transpose => {
                if x[0].is_matrix() {
                    one(Sh::new(&[x[0].d(1), x[0].d(0)], x[0].batch))
                } else {
                    None
                }
            }
            TriL(_) | TriU(_) => {
                if x[0].is_matrix() && x[0].d(0) == x[0].d(1) {
                    one(x[0].clone())
                } else {
                    None
                }
            }
            Slice(d, lo, up) => {
                if *d < 8 && lo < up && *up <= x[0].d(*d) {
                    one(x[0].with_dim(*d, up - lo))
                } else {
                    None
                }
            }
            Split(d, n) => {
                if *d < 8 && *n > 0 && x[0].d(*d) % n == 0 {
                    Some(vec![x[0].with_dim(*d, x[0].d(*d) / n); *n as usize])
                } else {
                    None
                }
            }
            Pick(ids, d) => one(pick(x[0], ids, *d)?),
            Concat(d) => {
                if x.is_empty() || *d >= 8 {
                    return None;
                }
                let mut batch = 1;
                let mut n: u64 = 0;
                for s in x {
                    if s.with_dim(*d, 1).dims != x[0].with_dim(*d, 1).dims {
                        return None;
                    }
                    if s.batch != 1 {
                        if batch != 1 && batch != s.batch {
                            return None;
                        }
                        batch = s.batch;
                    }
                    n += s.d(*d) as u64;
                }
                if n > LIMIT {
                    return None;
                }
                one(fits(x[0].with_dim(*d, n as u32).with_batch(batch))?)
            }
            Reshape(s) => {
                if s.size() == x[0].size() {
                    one(s.clone())
                } else {
                    None
                }
            }
            Flatten => one(Sh::new(&[x[0].volume() as u32], x[0].batch)),
            BatchSum | BatchMean => one(x[0].with_batch(1)),
            BatchSlice(lo, up) => {
                if lo < up && *up <= x[0].batch {
                    one(x[0].with_batch(up - lo))
                } else {
                    None
                }
            }
            BatchSplit(n) => {
                if *n > 0 && x[0].batch % n == 0 {
                    Some(vec![x[0].with_batch(x[0].batch / n); *n as usize])
                } else {
                    None
                }
            }
            BatchPick(ids) => {
                if ids.is_empty() || ids.iter().any(|&i| i >= x[0].batch) {
                    None
                } else {
                    one(fits(x[0].with_batch(ids.len() as u32))?)
                }
            }
            BatchConcat => {
                if x.is_empty() {
                    return None;
                }
                let mut n: u64 = 0;
                for s in x {
                    if s.dims != x[0].dims {
                        return None;
                    }
                    n += s.batch as u64;
                }
                if n > LIMIT {
                    return None;
                }
                one(fits(x[0].with_batch(n as u32))?)
            }
            SliceSum => {
                let mut s = x[0].clone();
                for y in x {
                    s = arith(&s, y)?;
                }
                one(s)
            }
            BatchNorm(_, on) => {
                if !*on {
                    return one(x[0].clone());
                }
                one(arith(&arith(x[1], x[0])?, x[2])?)
            }
            LayerNorm(_) => one(arith(&arith(x[1], x[0])?, x[2])?),
        }
    }

    pub fn eval(&self, t: &mut Tape, x: &[&Rt]) -> Vec<Rt> {
        let shs: Vec<&Sh> = x.iter().map(|r| &r.sh).collect();
        let out = self.shapes(&shs).expect("reference evaluation of a malformed call");
        let r = match self {
            Neg(_) => x[0].map(|a| t.neg(a)),
            Add(_) => zip(t, x[0], x[1], &out[0], Tape::add),
            Sub(_) => zip(t, x[0], x[1], &out[0], Tape::sub),
            Mul(_) => zip(t, x[0], x[1], &out[0], Tape::mul),
            Div(_) => zip(t, x[0], x[1], &out[0], Tape::div),
            Pow(_) => zip(t, x[0], x[1], &out[0], Tape::pow),
            AddC(k, _) => konst(t, x[0], *k, |t, a, k| t.add(a, k)),
            SubCL(k, _) => konst(t, x[0], *k, |t, a, k| t.sub(k, a)),
            SubCR(k, _) => konst(t, x[0], *k, |t, a, k| t.sub(a, k)),
            MulC(k, _) => konst(t, x[0], *k, |t, a, k| t.mul(a, k)),
            DivCL(k, _) => konst(t, x[0], *k, |t, a, k| t.div(k, a)),
            DivCR(k, _) => konst(t, x[0], *k, |t, a, k| t.div(a, k)),
            PowCL(k) => konst(t, x[0], *k, |t, a, k| t.pow(k, a)),
            Powf(k) => konst(t, x[0], *k, |t, a, k| t.pow(a, k)),
            Powi(n) => x[0].map(|a| t.powi(a, *n)),
            Sqrt => x[0].map(|a| t.sqrt(a)),
            Abs => x[0].map(|a| t.abs(a)),
            Sin => x[0].map(|a| t.sin(a)),
            Cos => x[0].map(|a| t.cos(a)),
            Tan => x[0].map(|a| t.tan(a)),
            Exp => x[0].map(|a| t.exp(a)),
            Ln => x[0].map(|a| t.ln(a)),
            Tanh => x[0].map(|a| t.tanh(a)),
            Sigmoid => x[0].map(|a| t.sigmoid(a)),
            Softplus => x[0].map(|a| t.softplus(a)),
            Relu => x[0].map(|a| t.prelu(a, 0.0)),
            Lrelu => x[0].map(|a| t.prelu(a, 0.01)),
            Prelu(k) => x[0].map(|a| t.prelu(a, *k)),
            Elu(k) => x[0].map(|a| t.elu(a, *k)),
            Sum(d) => lines(x[0], *d, &out[0], |l| t.sum(l)),
            Max(d) => lines(x[0], *d, &out[0], |l| t.select(l, true)),
            Min(d) => lines(x[0], *d, &out[0], |l| t.select(l, false)),
            Logsumexp(d) => lines(x[0], *d, &out[0], |l| t.logsumexp(l)),
            Broadcast(d, _) => {
                let d = *d as usize;
                Rt::build(&out[0], |ix, b| {
                    let mut j = *ix;
                    j[d] = 0;
                    t.copy(x[0].at(&j, b))
                })
            }
            LnSoftmax(d) => ln_softmax(t, x[0], *d),
            Softmax(d) => {
                let l = ln_softmax(t, x[0], *d);
                l.map(|a| t.exp(a))
            }
            SoftmaxCE(d) => {
                let full = elementwise(&x[0].sh, &x[1].sh).unwrap();
                let x0 = repeat(t, x[0], full.batch);
                let l = ln_softmax(t, &x0, *d);
                let m = zip(t, x[1], &l, &full, Tape::mul);
                let s = lines(&m, *d, &out[0], |l| t.sum(l));
                s.map(|a| t.neg(a))
            }
            SparseSoftmaxCE(ids, d) => {
                let x0 = repeat(t, x[0], out[0].batch);
                let l = ln_softmax(t, &x0, *d);
                let p = do_pick(t, &l, ids, *d, &out[0]);
                p.map(|a| t.neg(a))
            }
            Matmul(_) => {
                let k = x[0].sh.d(1) as usize;
                Rt::build(&out[0], |ix, b| {
                    let (mut l, mut r) = (Vec::with_capacity(k), Vec::with_capacity(k));
                    for j in 0..k {
                        l.push(x[0].at(&two(ix[0], j), b));
                        r.push(x[1].at(&two(j, ix[1]), b));
                    }
                    t.dot(&l, &r)
                })
            }
            Transpose => Rt::build(&out[0], |ix, b| t.copy(x[0].at(&two(ix[1], ix[0]), b))),
            TriL(k) => {
                let k = *k as i64;
                Rt::build(&out[0], |ix, b| {
                    // keep entries on and below the diagonal shifted k columns... see tri()
                    if tri_keep_l(ix[0] as i64, ix[1] as i64, k) {
                        t.copy(x[0].at(ix, b))
                    } else {
                        t.constant(0.0)
                    }
                })
            }
            TriU(k) => {
                let k = *k as i64;
                Rt::build(&out[0], |ix, b| {
                    if tri_keep_u(ix[0] as i64, ix[1] as i64, k) {
                        t.copy(x[0].at(ix, b))
                    } else {
                        t.constant(0.0)
                    }
                })
            }
            Slice(d, lo, _) => {
                let (d, lo) = (*d as usize, *lo as usize);
                Rt::build(&out[0], |ix, b| {
                    let mut j = *ix;
                    j[d] += lo;
                    t.copy(x[0].at(&j, b))
                })
            }
            Split(d, n) => {
                let d = *d as usize;
                let step = x[0].sh.d(d as u32) as usize / *n as usize;
                return (0..*n as usize)
                    .map(|i| {
                        Rt::build(&out[i], |ix, b| {
                            let mut j = *ix;
                            j[d] += i * step;
                            t.copy(x[0].at(&j, b))
                        })
                    })
                    .collect();
            }
            Pick(ids, d) => do_pick(t, x[0], ids, *d, &out[0]),
            Concat(d) => {
                let d = *d as usize;
                Rt::build(&out[0], |ix, b| {
                    let mut j = *ix;
                    for s in x {
                        let n = s.sh.d(d as u32) as usize;
                        if j[d] < n {
                            return t.copy(s.at(&j, b));
                        }
                        j[d] -= n;
                    }
                    unreachable!()
                })
            }
            Reshape(_) | Flatten => {
                Rt { sh: out[0].clone(), id: x[0].id.iter().map(|&i| t.copy(i)).collect() }
            }
            BatchSum => batch_sum(t, x[0]),
            BatchSlice(lo, _) => {
                let lo = *lo as usize;
                Rt::build(&out[0], |ix, b| t.copy(sample(x[0], ix, b + lo)))
            }
            BatchSplit(n) => {
                let step = (x[0].sh.batch / n) as usize;
                return (0..*n as usize)
                    .map(|i| Rt::build(&out[i], |ix, b| t.copy(sample(x[0], ix, b + i * step))))
                    .collect();
            }
            BatchPick(ids) => Rt::build(&out[0], |ix, b| t.copy(sample(x[0], ix, ids[b] as usize))),
            BatchConcat => {
                Rt::build(&out[0], |ix, b| {
                    let mut b = b;
                    for s in x {
                        let n = s.sh.batch as usize;
                        if b < n {
                            return t.copy(sample(s, ix, b));
                        }
                        b -= n;
                    }
                    unreachable!()
                })
            }
            Mean(d) => {
                let s = lines(x[0], *d, &out[0], |l| t.sum(l));
                konst(t, &s, x[0].sh.d(*d) as f32, |t, a, k| t.div(a, k))
            }
            BatchMean => {
                let s = batch_sum(t, x[0]);
                konst(t, &s, x[0].sh.batch as f32, |t, a, k| t.div(a, k))
            }
            SliceSum => {
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    let sh = arith(&acc.sh, &y.sh).unwrap();
                    acc = zip(t, &acc, y, &sh, Tape::add);
                }
                acc.map(|a| t.copy(a))
            }
            BatchNorm(_, false) | DropoutOff(_) => x[0].map(|a| t.copy(a)),
            DropoutAll(_) => x[0].map(|a| {
                let z = t.constant(0.0);
                t.mul(z, a)
            }),
            BatchNorm(eps, true) => {
                let m = Op::BatchMean.eval(t, &[x[0]]).pop().unwrap();
                normalise(t, x, &m, *eps, |t, sq| Op::BatchMean.eval(t, &[sq]).pop().unwrap())
            }
            LayerNorm(eps) => {
                let m = sample_mean(t, x[0]);
                normalise(t, x, &m, *eps, |t, sq| sample_mean(t, sq))
            }
        };
        vec![r]
    }
}

fn sample_mean(t: &mut Tape, x: &Rt) -> Rt {
    let vol = x.sh.volume();
    let sh = Sh::new(&[], x.sh.batch);
    let n = t.constant(vol as f64);
    Rt::build(&sh, |_, b| {
        let ids: Vec<u32> = (0..vol).map(|i| x.flat_at(i, b)).collect();
        let s = t.sum(&ids);
        t.div(s, n)
    })
}

fn normalise(t: &mut Tape, x: &[&Rt], m: &Rt, eps: f32, mean: impl Fn(&mut Tape, &Rt) -> Rt) -> Rt {
    let d = Op::Sub(0).eval(t, &[x[0], m]).pop().unwrap();
    let sq = Op::Mul(0).eval(t, &[&d, &d]).pop().unwrap();
    let v = mean(t, &sq);
    let v = konst(t, &v, eps, |t, a, k| t.add(a, k));
    let s = v.map(|a| t.sqrt(a));
    let n = Op::Div(0).eval(t, &[&d, &s]).pop().unwrap();
    let g = Op::Mul(0).eval(t, &[x[1], &n]).pop().unwrap();
    Op::Add(0).eval(t, &[&g, x[2]]).pop().unwrap()
}

/// lower triangle: entry (row i, column j) is kept iff i - j >= k
pub fn tri_keep_l(i: i64, j: i64, k: i64) -> bool {
    i - j >= k
}

/// upper triangle: entry (row i, column j) is kept iff j - i >= k
pub fn tri_keep_u(i: i64, j: i64, k: i64) -> bool {
    j - i >= k
}

fn two(i: usize, j: usize) -> [usize; 8] {
    let mut r = [0; 8];
    r[0] = i;
    r[1] = j;
    r
}

fn sample(x: &Rt, ix: &[usize; 8], b: usize) -> u32 {
    x.id[b * x.sh.volume() + x.sh.flat(ix)]
}

fn zip(t: &mut Tape, a: &Rt, b: &Rt, out: &Sh, f: fn(&mut Tape, u32, u32) -> u32) -> Rt {
    let zero = [0usize; 8];
    Rt::build(out, |ix, bt| {
        let p = a.at(if a.sh.is_scalar() { &zero } else { ix }, bt);
        let q = b.at(if b.sh.is_scalar() { &zero } else { ix }, bt);
        f(t, p, q)
    })
}

fn konst(t: &mut Tape, a: &Rt, k: f32, f: fn(&mut Tape, u32, u32) -> u32) -> Rt {
    let k = t.constant(k as f64);
    a.map(|i| f(t, i, k))
}

fn lines(x: &Rt, dim: u32, out: &Sh, mut f: impl FnMut(&[u32]) -> u32) -> Rt {
    let n = x.sh.d(dim) as usize;
    let mut buf = Vec::with_capacity(n);
    Rt::build(out, |ix, b| {
        buf.clear();
        let mut j = *ix;
        for i in 0..n {
            j[dim as usize] = i;
            buf.push(x.at(&j, b));
        }
        f(&buf)
    })
}

/// one copy per sample
fn repeat(t: &mut Tape, x: &Rt, batch: u32) -> Rt {
    if x.sh.batch == batch {
        return x.clone();
    }
    Rt::build(&x.sh.with_batch(batch), |ix, b| t.copy(x.at(ix, b)))
}

fn ln_softmax(t: &mut Tape, x: &Rt, dim: u32) -> Rt {
    let l = lines(x, dim, &x.sh.with_dim(dim, 1), |l| t.logsumexp(l));
    Rt::build(&x.sh, |ix, b| {
        let mut j = *ix;
        j[dim as usize] = 0;
        t.sub(x.at(ix, b), l.at(&j, b))
    })
}

fn do_pick(t: &mut Tape, x: &Rt, ids: &[u32], dim: u32, out: &Sh) -> Rt {
    Rt::build(out, |ix, b| {
        let mut j = *ix;
        j[dim as usize] = if ids.len() == 1 { ids[0] } else { ids[b] } as usize;
        t.copy(x.at(&j, b))
    })
}

fn batch_sum(t: &mut Tape, x: &Rt) -> Rt {
    let sh = x.sh.with_batch(1);
    Rt::build(&sh, |ix, _| {
        let ids: Vec<u32> = (0..x.sh.batch as usize).map(|b| sample(x, ix, b)).collect();
        t.sum(&ids)
    })
}
