//! Constructive generators for shapes, values and well-formed calls.
use crate::ops::Op;
use crate::rt::Sh;
use crate::src::{mix, Mode, Src, Vals};

thread_local! {
    static LONG: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// runs a check with `Lim::LONG` wherever it chooses its limits
pub fn long<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LONG.with(|l| l.set(false));
        }
    }
    LONG.with(|l| l.set(true));
    let _off = Off;
    f()
}

/// an extent past 16 bits
fn long_extent(s: &mut Src) -> u32 {
    s.either(&[65536.0, 65537.0, 65535.0, 131073.0, 70000.0], 65_538.0, 140_000.0) as u32
}

#[derive(Clone, Copy)]
pub struct Lim {
    pub depth: u32,
    pub vol: u32,
    pub batch: u32,
}

impl Lim {
    pub const SMALL: Lim = Lim { depth: 4, vol: 48, batch: 4 };
    pub const MID: Lim = Lim { depth: 5, vol: 400, batch: 6 };
    pub const BIG: Lim = Lim { depth: 8, vol: 6000, batch: 9 };
    pub const HUGE: Lim = Lim { depth: 8, vol: 70_000, batch: 70 };

    /// one extent (or the minibatch) past 16 bits
    pub const LONG: Lim = Lim { depth: 4, vol: 300_000, batch: 3 };

    pub fn choose(s: &mut Src) -> Lim {
        if LONG.with(|l| l.get()) {
            return Lim::LONG;
        }
        [Lim::SMALL, Lim::MID, Lim::BIG, Lim::HUGE][s.weighted(&[60, 30, 9, 1])]
    }
}

/// extent of one dimension, at most cap
pub fn extent(s: &mut Src, cap: u32) -> u32 {
    let cap = cap.max(1);
    let v = match s.weighted(&[14, 50, 16, 8, 6, 4, 2]) {
        0 => 1,
        1 => s.range(2, 4),
        2 => s.range(5, 9),
        3 => s.range(10, 20),
        4 => *s.pick(&[31, 32, 33, 63, 64, 65, 66]),
        5 => s.range(100, 300),
        _ => *s.pick(&[127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4096, 4099, 65535, 65537]),
    };
    v.min(cap)
}

pub fn batch(s: &mut Src, cap: u32) -> u32 {
    let v = match s.weighted(&[40, 45, 12, 3]) {
        0 => 1,
        1 => s.range(2, 4),
        2 => s.range(5, 9),
        _ => s.range(10, 70),
    };
    v.min(cap.max(1))
}

pub fn shape(s: &mut Src, l: Lim) -> Sh {
    if l.vol >= Lim::LONG.vol {
        let n = long_extent(s);
        let small: Vec<u32> = (0..3).map(|_| s.weighted(&[3, 1]) as u32 + 1).collect();
        let b = s.weighted(&[2, 1]) as u32 + 1;
        return match s.weighted(&[4, 3, 2, 2]) {
            0 => Sh::new(&[n, small[0]], b),
            1 => Sh::new(&[small[0], n], b),
            2 => Sh::new(&[small[0], small[1], n], 1),
            _ => Sh::new(&small[..s.index(2)], n),
        };
    }
    let depth = s.weighted(&[8, 22, 30, 20, 10, 4, 2, 2, 2]).min(l.depth as usize);
    let mut dims = vec![];
    let mut vol = 1;
    for _ in 0..depth {
        let d = extent(s, l.vol / vol);
        vol *= d;
        dims.push(d);
    }
    let b = batch(s, l.batch);
    Sh::new(&dims, b)
}

pub fn matrix(s: &mut Src, l: Lim) -> Sh {
    if l.vol >= Lim::LONG.vol {
        let n = long_extent(s);
        let m = s.range(1, 2);
        let b = s.weighted(&[3, 1]) as u32 + 1;
        return match s.weighted(&[3, 3, 1]) {
            0 => Sh::new(&[n, m], b),
            1 => Sh::new(&[m, n], b),
            _ => Sh::new(&[m, s.range(1, 2)], n),
        };
    }
    let r = extent(s, l.vol);
    let c = extent(s, l.vol / r);
    let b = batch(s, l.batch);
    Sh::new(&[r, c], b)
}

/// a dimension index: mostly inside the shape, sometimes past its depth
pub fn dim(s: &mut Src, sh: &Sh) -> u32 {
    let d = sh.depth();
    if d == 0 {
        return if s.chance(1, 2) { s.below(8) } else { 0 };
    }
    if s.chance(1, 8) {
        s.range(d.min(7), 7)
    } else {
        s.below(d)
    }
}

/// second operand batch compatible with b
pub fn compat_batch(s: &mut Src, b: u32, cap: u32) -> u32 {
    if b == 1 {
        if s.chance(1, 2) {
            batch(s, cap)
        } else {
            1
        }
    } else if s.chance(1, 3) {
        1
    } else {
        b
    }
}

pub fn konst(s: &mut Src) -> f32 {
    match s.weighted(&[6, 5, 5, 2, 2]) {
        0 => s.real(-4.0, 4.0),
        1 => s.range(1, 9) as f32,
        2 => -(s.range(1, 9) as f32),
        3 => *s.pick(&[0.0, 1.0, -1.0, 0.5]),
        _ => *s.pick(&[1e-3, 100.0, -250.0, 1e4]),
    }
}

pub fn konst_nonzero(s: &mut Src) -> f32 {
    let k = konst(s);
    if k.abs() < 1e-3 {
        1.5
    } else {
        k
    }
}

pub fn ints(s: &mut Src) -> Vals {
    let lim = *s.pick(&[3, 9, 50]);
    Vals { mode: if s.chance(1, 6) { Mode::Iota } else { Mode::Ints(lim) }, seed: s.word(), exp: 0 }
}

pub fn vals(s: &mut Src, mode: Mode) -> Vals {
    Vals { mode, seed: s.word(), exp: 0 }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    pub args: Vec<(Sh, Vals)>,
}

impl Call {
    pub fn show(&self) -> String {
        format!(
            "{:?} on {}",
            self.op,
            self.args
                .iter()
                .map(|(s, v)| format!("{} {:?}", s.show(), v))
                .collect::<Vec<_>>()
                .join(", ")
        )
    }
    pub fn data(&self) -> Vec<Vec<f32>> {
        self.args.iter().map(|(s, v)| v.fill(s.size())).collect()
    }
    pub fn total(&self) -> usize {
        self.args.iter().map(|(s, _)| s.size()).sum()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Unary,
    Binary,
    Reduce,
    Softmax,
    Matrix,
    Move,
    Batch,
}

/// generic reals for elementwise ops; `smooth` keeps away from kinks
fn reals(s: &mut Src, smooth: bool) -> Vals {
    let m = match s.weighted(&[4, 4, 3, 2]) {
        0 => {
            if smooth {
                Mode::Signed(0.5, 3.0)
            } else {
                Mode::Ints(4)
            }
        }
        1 => Mode::Signed(0.01, 3.0),
        2 => Mode::Signed(0.1, 10.0),
        _ => Mode::Signed(1.0, 30.0),
    };
    vals(s, m)
}

/// operands of every magnitude, where the operation allows it
pub fn call(s: &mut Src, kind: Kind, l: Lim, smooth: bool) -> Call {
    let exps: Option<Vec<i8>> = if s.chance(1, 6) { Some((0..3).map(|_| *s.pick(&[0, -36, -24, -12, 12, 24, 36])).collect()) } else { None };
    let spot = matches!(kind, Kind::Reduce | Kind::Softmax) && l.vol >= 48 && l.vol < Lim::LONG.vol && s.chance(1, 6);
    let spot = if spot { Some([s.word(), s.word()]) } else { None };
    let mut c = plain_call(s, kind, l, smooth);
    if let Some(w) = spot {
        return spotted(c, w, l, smooth);
    }
    if let Some(e) = exps {
        let fits = match c.op {
            Op::AddC(..) | Op::SubCL(..) | Op::SubCR(..) | Op::MulC(..) | Op::DivCR(..) | Op::DivCL(..) => true,
            Op::Neg(..) | Op::Sqrt | Op::Abs | Op::Ln | Op::Relu | Op::Lrelu | Op::Prelu(..) => true,
            Op::Add(..) | Op::Sub(..) | Op::Mul(..) | Op::Div(..) => true,
            Op::Sum(..) | Op::Max(..) | Op::Min(..) | Op::Broadcast(..) => true,
            _ => matches!(kind, Kind::Matrix | Kind::Move | Kind::Batch),
        };
        if fits {
            for (i, a) in c.args.iter_mut().enumerate() {
                a.1.exp = e[i % e.len()];
            }
            // quotients of numbers whose squares do not fit
            let (far, by) = (*[66i8, 80, -70, -76].get((c.args[0].1.seed % 4) as usize).unwrap(), e[0] / 6);
            match &mut c.op {
                Op::Div(_) if e[2] > 12 && c.args.len() == 2 => {
                    c.args[1].1.exp = far;
                    c.args[0].1.exp = far + by;
                }
                Op::DivCL(k, _) if e[2] > 12 => {
                    *k *= (far as f32).exp2();
                    c.args[0].1.exp = far;
                }
                _ => {}
            }
        }
    }
    c
}

/// calls that resemble a call: the same extents in another order or arrangement, another
/// dimension, other numbers of the same kind, a neighbouring constant, other places
pub fn relatives(c: &Call, w: u64, n: usize) -> Vec<Call> {
    let mut out: Vec<Call> = vec![c.clone()];
    let mut k = 0;
    for i in 0..n as u64 * 3 {
        if out.len() > n {
            break;
        }
        let mut draw = |m: u32| {
            k += 1;
            (mix(w ^ k << 24 ^ i << 52) >> 24) as u32 % m.max(1)
        };
        let mut r = out[if draw(2) == 0 { 0 } else { out.len() - 1 }].clone();
        let mut dim_of = |d: &mut u32, draw: &mut dyn FnMut(u32) -> u32| *d = if draw(5) == 0 { draw(8) } else { draw(4) };
        match draw(8) {
            // extents trade places
            0 | 1 => {
                let (a, b) = (draw(4), draw(4));
                for x in r.args.iter_mut() {
                    let mut dims: Vec<u32> = (0..8).map(|j| x.0.d(j)).collect();
                    dims.swap(a as usize, b as usize);
                    x.0 = Sh::new(&dims, x.0.batch);
                }
            }
            // a factor moves from one dimension to another, or to the minibatch
            2 => {
                let (a, b) = (draw(3), draw(4));
                for x in r.args.iter_mut() {
                    let mut dims: Vec<u32> = (0..8).map(|j| x.0.d(j)).collect();
                    let e = dims[a as usize];
                    let f = (2..=e).find(|f| e % f == 0).unwrap_or(1);
                    dims[a as usize] /= f;
                    let mut batch = x.0.batch;
                    if b == 3 {
                        batch *= f;
                    } else {
                        dims[b as usize] *= f;
                    }
                    x.0 = Sh::new(&dims, batch);
                }
            }
            // the operands trade places
            3 if r.args.len() > 1 => {
                let (a, b) = (draw(r.args.len() as u32) as usize, draw(r.args.len() as u32) as usize);
                let (x, y) = (r.args[a].0.clone(), r.args[b].0.clone());
                r.args[a].0 = y;
                r.args[b].0 = x;
            }
            // one more, one less
            4 => {
                let (a, by) = (draw(4), draw(2));
                for x in r.args.iter_mut() {
                    if a == 3 {
                        let b = x.0.batch;
                        x.0 = x.0.with_batch(if b > 1 { b + 1 - 2 * by } else { 1 + (draw(3) == 0) as u32 });
                    } else if x.0.d(a) > 1 {
                        x.0 = x.0.with_dim(a, x.0.d(a) + 1 - 2 * by);
                    }
                }
            }
            // other numbers
            5 => {
                let a = draw(r.args.len() as u32) as usize;
                r.args[a].1.seed = r.args[a].1.seed.wrapping_add(1 + draw(1000));
            }
            // other parameters
            _ => match &mut r.op {
                Op::AddC(v, _) | Op::SubCL(v, _) | Op::SubCR(v, _) | Op::MulC(v, _) | Op::Prelu(v) | Op::Elu(v) => {
                    *v = [-*v, *v + 1.0, *v * 2.0, f32::from_bits(v.to_bits() ^ 1)][draw(4) as usize]
                }
                Op::DivCL(v, _) | Op::DivCR(v, _) if v.abs() > 1e-3 => *v = [-*v, *v * 2.0, *v / 2.0, f32::from_bits(v.to_bits() ^ 1)][draw(4) as usize],
                Op::PowCL(v) => *v = [*v * 1.5, *v / 1.5, 1.0 / *v][draw(3) as usize].clamp(0.05, 10.0),
                Op::Powf(v) => *v = [-*v, *v + 1.0, f32::from_bits(v.to_bits() ^ 1)][draw(3) as usize].clamp(-6.0, 6.0),
                Op::Powi(v) => *v = if *v > 0 { *v % 12 + 1 } else { *v - (draw(2) as i32) }.max(-12),
                Op::Sum(d) | Op::Max(d) | Op::Min(d) | Op::Logsumexp(d) | Op::LnSoftmax(d) | Op::Softmax(d) | Op::SoftmaxCE(d) | Op::Concat(d) | Op::Mean(d) => dim_of(d, &mut draw),
                Op::Broadcast(d, n) => {
                    if draw(2) == 0 {
                        dim_of(d, &mut draw)
                    } else {
                        *n = (*n).max(2) - 1 + 2 * draw(2)
                    }
                }
                Op::Slice(d, a, b) => match draw(3) {
                    0 => dim_of(d, &mut draw),
                    1 => {
                        *a += 1;
                        *b += 1
                    }
                    _ => {
                        let m = (*a).min(1);
                        *a -= m;
                        *b -= m * draw(2)
                    }
                },
                Op::Split(d, n) => {
                    if draw(2) == 0 {
                        dim_of(d, &mut draw)
                    } else {
                        *n = [1, 2, 3, 4][draw(4) as usize]
                    }
                }
                Op::Pick(ids, d) | Op::SparseSoftmaxCE(ids, d) => {
                    let e = r.args[0].0.d(*d);
                    match draw(5) {
                        0 => dim_of(d, &mut draw),
                        1 => ids.reverse(),
                        2 => {
                            let j = draw(ids.len() as u32) as usize;
                            ids[j] = draw(e)
                        }
                        3 => ids.rotate_left(1),
                        _ => ids.truncate(1),
                    }
                }
                Op::BatchNorm(e, _) | Op::LayerNorm(e) => *e = [*e * 10.0, *e / 10.0, 1.0, f32::from_bits(e.to_bits() ^ 1)][draw(4) as usize].clamp(1e-5, 2.0),
                Op::TriL(k) | Op::TriU(k) => *k = draw(5),
                Op::BatchSlice(a, b) => {
                    if draw(2) == 0 {
                        *a += 1;
                        *b += 1
                    } else {
                        *a = 0
                    }
                }
                Op::BatchSplit(n) => *n = [1, 2, 3, 4][draw(4) as usize],
                Op::BatchPick(ids) => match draw(4) {
                    0 => ids.reverse(),
                    1 => ids.rotate_left(1),
                    2 => {
                        let j = draw(ids.len() as u32) as usize;
                        ids[j] = draw(r.args[0].0.batch)
                    }
                    _ => ids.push(draw(r.args[0].0.batch)),
                },
                Op::Neg(v) | Op::Add(v) | Op::Sub(v) | Op::Mul(v) | Op::Div(v) | Op::Pow(v) | Op::Matmul(v) => *v = draw(4) as u8,
                _ => {}
            },
        }
        if matches!(r.args[0].1.mode, Mode::Spot(..)) || r.args.iter().any(|x| x.0.volume() as u64 * x.0.batch as u64 > 20_000) {
            continue;
        }
        if r.op.shapes(&r.args.iter().map(|x| &x.0).collect::<Vec<_>>()).is_some() {
            out.push(r);
        }
    }
    out
}

/// longer lines in which a single element decides the result
fn spotted(c: Call, w: [u32; 2], l: Lim, smooth: bool) -> Call {
    let mut k = 0;
    let mut draw = |m: u32| {
        k += 1;
        (mix((w[0] as u64) << 32 | w[1] as u64 ^ k << 12) >> 24) as u32 % m.max(1)
    };
    let most = (l.vol * 4).clamp(300, 5000);
    let n = match draw(4) {
        0 => 2 + draw(80),
        1 => 20 + draw(280),
        2 => 1 + draw(most),
        _ => (1 << 3 + draw(8)) - 1 + draw(3),
    }
    .min(most)
    .max(2);
    let (d, up) = match &c.op {
        Op::Sum(d) | Op::Logsumexp(d) | Op::LnSoftmax(d) | Op::Softmax(d) => (*d, draw(3) > 0),
        Op::Max(d) => (*d, smooth || draw(6) > 0),
        Op::Min(d) => (*d, !smooth && draw(6) == 0),
        _ => return c,
    };
    let dims: Vec<u32> = (0..8u32).map(|i| if i == d { n } else { c.args[0].0.d(i).min(if n > 600 { 2 } else { 3 }).min(if i < 3 { 3 } else { 1 }) }).collect();
    let sh = Sh::new(&dims, c.args[0].0.batch.min(2));
    let stride: u32 = dims[..d as usize].iter().product();
    let pos = match draw(6) {
        0 | 1 => n - 1,
        2 => 0,
        3 => n - 1 - draw(9).min(n - 1),
        4 => ((1 << draw(12)) - draw(2)).min(n - 1),
        _ => draw(n),
    };
    let noise = if matches!(c.op, Op::Max(_) | Op::Min(_)) && smooth { 1.0 } else { [0.0, 1.0, 1.0, 1e-3][draw(4) as usize] };
    let v = [2.0, 3.5, 9.0, 40.0][draw(4) as usize] * if up { 1.0 } else { -1.0 };
    Call { op: c.op, args: vec![(sh, Vals { mode: Mode::Spot(stride, n, pos, v, noise), seed: c.args[0].1.seed, exp: 0 })] }
}

/// far more operands, parts or picked entries than any fixed table would hold
fn crowd(s: &mut Src, kind: Kind, l: Lim) -> Call {
    let n = match s.below(4) {
        0 => s.range(17, 40),
        1 => *s.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129]),
        2 => s.range(41, 140),
        _ => *s.pick(&[255, 256, 257, 300, 511, 512, 513]),
    };
    let seed = s.word();
    let v = if s.chance(1, 2) { vals(s, Mode::Iota) } else { ints(s) };
    let sh = shape(s, l);
    let d = dim(s, &sh);
    let draw = |i: u32, m: u32| (mix(((seed as u64) << 20) ^ i as u64) >> 33) as u32 % m.max(1);
    // a small operand, so that there can be many
    let small = if sh.volume() > 24 { Sh::new(&[2, 3], 1) } else { sh.with_batch(1) };
    match (kind, s.below(3)) {
        (Kind::Move, 0) => {
            let b = if s.chance(1, 3) { 2 } else { 1 };
            let args = (0..n)
                .map(|i| {
                    let x = small.with_dim(d, 1 + draw(i, 3)).with_batch(if draw(i + 70_000, 2) == 0 { 1 } else { b });
                    (x, Vals { mode: v.mode, seed: v.seed.wrapping_add(i * 77), exp: 0 })
                })
                .collect();
            Call { op: Op::Concat(d), args }
        }
        (Kind::Move, 1) => {
            let m = s.range(1, 3);
            Call { op: Op::Split(d, n), args: vec![(small.with_dim(d, n * m), v)] }
        }
        (Kind::Move, _) => {
            let e = small.d(d).max(2);
            let x = small.with_dim(d, e).with_batch(if s.bool() { 1 } else { n });
            let ids = (0..n).map(|i| draw(i, e)).collect();
            Call { op: Op::Pick(ids, d), args: vec![(x, v)] }
        }
        (_, 0) => {
            let args = (0..n)
                .map(|i| (small.with_batch(1 + draw(i, 3)), Vals { mode: v.mode, seed: v.seed.wrapping_add(i * 131), exp: 0 }))
                .collect();
            Call { op: Op::BatchConcat, args }
        }
        (_, 1) => {
            let m = s.range(1, 3);
            Call { op: Op::BatchSplit(n), args: vec![(small.with_batch(n * m), v)] }
        }
        _ => {
            let b = s.range(1, 5);
            let ids = (0..n).map(|i| draw(i, b)).collect();
            Call { op: Op::BatchPick(ids), args: vec![(small.with_batch(b), v)] }
        }
    }
}

fn plain_call(s: &mut Src, kind: Kind, l: Lim, smooth: bool) -> Call {
    if matches!(kind, Kind::Move | Kind::Batch) && s.chance(1, 16) {
        return crowd(s, kind, l);
    }
    match kind {
        Kind::Const => {
            let sh = shape(s, l);
            let v = if s.chance(1, 3) { ints(s) } else { reals(s, smooth) };
            let var = s.below(16) as u8;
            let op = match s.below(6) {
                0 => Op::AddC(konst(s), var),
                1 => Op::SubCL(konst(s), var),
                2 => Op::SubCR(konst(s), var),
                3 => Op::MulC(konst(s), var),
                4 => Op::DivCR(konst_nonzero(s), var),
                _ => {
                    let k = konst(s);
                    let m = [Mode::Signed(0.25, 4.0), Mode::Signed(1.0, 40.0)][s.index(2)];
                    let v = vals(s, m);
                    return Call { op: Op::DivCL(k, var), args: vec![(sh, v)] };
                }
            };
            Call { op, args: vec![(sh, v)] }
        }
        Kind::Unary => {
            let sh = shape(s, l);
            let pos = |s: &mut Src| {
                let m = *[Mode::Real(0.05, 4.0), Mode::Real(0.5, 50.0), Mode::LogPos(-6, 12)].get(s.index(3)).unwrap();
                vals(s, m)
            };
            let (op, v) = match s.below(18) {
                0 => (Op::Neg(s.below(4) as u8), reals(s, smooth)),
                1 => (Op::Sqrt, pos(s)),
                2 => (Op::Abs, reals(s, smooth)),
                3 => (Op::Sin, reals(s, smooth)),
                4 => (Op::Cos, reals(s, smooth)),
                5 => (Op::Tan, vals(s, Mode::Signed(0.0, 1.3))),
                6 => {
                    let m = *[Mode::Signed(0.0, 2.0), Mode::Signed(0.0, 20.0)].get(s.index(2)).unwrap();
                    (Op::Exp, vals(s, m))
                }
                7 => (Op::Ln, pos(s)),
                8 => (Op::Tanh, reals(s, smooth)),
                9 | 10 => {
                    let m = *[Mode::Signed(0.0, 3.0), Mode::Signed(0.0, 12.0), Mode::Signed(5.0, 200.0)].get(s.index(3)).unwrap();
                    let op = if s.bool() { Op::Sigmoid } else { Op::Softplus };
                    (op, vals(s, m))
                }
                11 => (Op::Relu, reals(s, smooth)),
                12 => (Op::Lrelu, reals(s, smooth)),
                13 => (Op::Prelu(konst(s)), reals(s, smooth)),
                14 => (Op::Elu(konst(s)), reals(s, smooth)),
                15 => {
                    let k = s.either(&[2.0, 0.5, -1.0, 3.0, 1.0, -0.5, 0.0, 1.7, -2.3], -4.0, 4.0);
                    (Op::Powf(k), vals(s, Mode::Real(0.2, 5.0)))
                }
                16 => {
                    let k = s.either(&[2.0, 0.5, 3.0, 1.7, 0.1, 9.5], 0.05, 10.0);
                    (Op::PowCL(k), vals(s, Mode::Signed(0.1, 3.0)))
                }
                _ => {
                    let n = if s.chance(1, 3) { s.range(0, 28) as i32 - 12 } else { *s.pick(&[2, 3, 1, 0, -1, -2, 4, 5, 7, -3, -5, 12]) };
                    let v = if s.chance(1, 3) && n > 0 { vals(s, Mode::Ints(4)) } else { vals(s, Mode::Signed(0.4, 2.5)) };
                    (Op::Powi(n), v)
                }
            };
            Call { op, args: vec![(sh, v)] }
        }
        Kind::Binary => {
            let a = shape(s, l);
            let bb = compat_batch(s, a.batch, l.batch);
            let (x, y) = match s.weighted(&[5, 2, 2]) {
                0 => (a.clone(), a.with_batch(bb)),
                1 => (Sh::new(&[], bb), a),
                _ => (a, Sh::new(&[], bb)),
            };
            let var = s.below(8) as u8;
            let int = s.chance(1, 3);
            let (op, vx, vy) = match s.below(5) {
                0 => (Op::Add(var), if int { ints(s) } else { reals(s, smooth) }, if int { ints(s) } else { reals(s, smooth) }),
                1 => (Op::Sub(var), if int { ints(s) } else { reals(s, smooth) }, if int { ints(s) } else { reals(s, smooth) }),
                2 => (Op::Mul(var), if int { ints(s) } else { reals(s, smooth) }, if int { ints(s) } else { reals(s, smooth) }),
                3 => (Op::Div(var), reals(s, smooth), vals(s, Mode::Signed(0.25, 5.0))),
                _ => (Op::Pow(s.below(4) as u8), vals(s, Mode::Real(0.3, 4.0)), vals(s, Mode::Signed(0.1, 3.0))),
            };
            Call { op, args: vec![(x, vx), (y, vy)] }
        }
        Kind::Reduce => {
            let mut sh = shape(s, l);
            let d = dim(s, &sh);
            let (op, v) = match s.below(5) {
                0 => (Op::Sum(d), if s.chance(1, 2) { ints(s) } else { reals(s, smooth) }),
                1 => (Op::Max(d), if s.chance(1, 3) && !smooth { vals(s, Mode::Ties(5)) } else { vals(s, Mode::Distinct) }),
                2 => (Op::Min(d), if s.chance(1, 3) && !smooth { vals(s, Mode::Ties(5)) } else { vals(s, Mode::Distinct) }),
                3 => {
                    // broadcast needs extent 1 along d
                    sh = sh.with_dim(d, 1);
                    let cap = (l.vol as usize * 2 / sh.volume().max(1)).max(1) as u32;
                    let n = extent(s, cap);
                    (Op::Broadcast(d, n), if s.chance(1, 2) { ints(s) } else { reals(s, smooth) })
                }
                _ => {
                    let m = *[Mode::Signed(0.0, 3.0), Mode::Signed(0.0, 30.0), Mode::Signed(50.0, 900.0), Mode::Real(-3.0, 3.0)].get(s.index(4)).unwrap();
                    (Op::Logsumexp(d), vals(s, m))
                }
            };
            Call { op, args: vec![(sh, v)] }
        }
        Kind::Softmax => {
            let sh = shape(s, l);
            let d = dim(s, &sh);
            let m = *[Mode::Signed(0.0, 3.0), Mode::Signed(0.0, 20.0), Mode::Signed(50.0, 900.0)].get(s.weighted(&[3, 2, 2])).unwrap();
            let v = vals(s, m);
            match s.below(4) {
                0 => Call { op: Op::LnSoftmax(d), args: vec![(sh, v)] },
                1 => Call { op: Op::Softmax(d), args: vec![(sh, v)] },
                2 => {
                    let tb = sh.with_batch(compat_batch(s, sh.batch, l.batch));
                    let t = vals(s, Mode::Real(0.0, 1.0));
                    Call { op: Op::SoftmaxCE(d), args: vec![(sh, v), (tb, t)] }
                }
                _ => {
                    let ids = pick_ids(s, &sh, d, l.batch);
                    Call { op: Op::SparseSoftmaxCE(ids, d), args: vec![(sh, v)] }
                }
            }
        }
        Kind::Matrix => {
            let int = s.chance(1, 2);
            let v = if int { ints(s) } else { reals(s, smooth) };
            match s.weighted(&[6, 2, 1, 1]) {
                0 => {
                    let a = matrix(s, l);
                    let n = extent(s, (l.vol / a.d(1)).max(1));
                    // keep the work bounded
                    let work = a.d(0) as u64 * a.d(1) as u64 * n as u64;
                    let n = if work > 150_000 || work * a.batch as u64 > 10_000_000 { 1 } else { n };
                    let bb = compat_batch(s, a.batch, l.batch);
                    let b = Sh::new(&[a.d(1), n], bb);
                    let w = if int { ints(s) } else { reals(s, smooth) };
                    Call { op: Op::Matmul(s.below(4) as u8), args: vec![(a, v), (b, w)] }
                }
                1 => {
                    let a = matrix(s, l);
                    Call { op: Op::Transpose, args: vec![(a, v)] }
                }
                k => {
                    let n = extent(s, 70).min(((l.vol as f64).sqrt()) as u32).max(1);
                    let b = batch(s, l.batch);
                    let sh = Sh::new(&[n, n], b);
                    let kk = if s.chance(1, 10) { *s.pick(&[1000, u32::MAX / 2, u32::MAX - 1, u32::MAX]) } else { s.range(0, n + 1) };
                    Call { op: if k == 2 { Op::TriL(kk) } else { Op::TriU(kk) }, args: vec![(sh, v)] }
                }
            }
        }
        Kind::Move => {
            let v = if s.chance(1, 2) { vals(s, Mode::Iota) } else { ints(s) };
            match s.below(7) {
                0 => {
                    let sh = shape(s, l);
                    let d = dim(s, &sh);
                    let n = sh.d(d);
                    let lo = s.below(n);
                    let up = s.range(lo + 1, n);
                    Call { op: Op::Slice(d, lo, up), args: vec![(sh, v)] }
                }
                1 => {
                    let n = if s.chance(1, 10) { s.range(6, 40) } else { s.range(1, 5) };
                    let sh = shape(s, l);
                    let d = dim(s, &sh);
                    let m = extent(s, 6) * n;
                    let sh = sh.with_dim(d, m);
                    let sh = if sh.size() > 100_000 { Sh::new(&[], 1).with_dim(d, m) } else { sh };
                    Call { op: Op::Split(d, n), args: vec![(sh, v)] }
                }
                2 => {
                    let sh = shape(s, l);
                    let d = dim(s, &sh);
                    let ids = pick_ids(s, &sh, d, l.batch);
                    Call { op: Op::Pick(ids, d), args: vec![(sh, v)] }
                }
                3 | 4 => {
                    let n = if s.chance(1, 12) { s.range(6, 20) } else { s.range(1, 5) };
                    let sh = shape(s, l);
                    let d = dim(s, &sh);
                    let sh = if sh.size() > 200_000 { sh.with_batch(1) } else { sh };
                    let mut args: Vec<(Sh, Vals)> = vec![];
                    for i in 0..n {
                        if args.iter().map(|a| a.0.size()).sum::<usize>() > 400_000 {
                            break;
                        }
                        let e = extent(s, if sh.with_dim(d, 1).volume() > 500 { 3 } else { 12 });
                        let b = if s.chance(1, 3) { 1 } else { sh.batch };
                        let vv = Vals { mode: v.mode, seed: v.seed.wrapping_add(i * 77), exp: 0 };
                        args.push((sh.with_dim(d, e).with_batch(b), if s.chance(1, 2) { vv } else { ints(s) }));
                    }
                    Call { op: Op::Concat(d), args }
                }
                5 => {
                    let sh = shape(s, l);
                    let to = refactor(s, &sh);
                    Call { op: Op::Reshape(to), args: vec![(sh, v)] }
                }
                _ => {
                    let sh = shape(s, l);
                    Call { op: Op::Flatten, args: vec![(sh, v)] }
                }
            }
        }
        Kind::Batch => {
            let sh = shape(s, l);
            let sh = if sh.batch == 1 && s.chance(3, 4) { sh.with_batch(s.range(2, 6)) } else { sh };
            let v = if s.chance(1, 2) { vals(s, Mode::Iota) } else { ints(s) };
            match s.below(5) {
                0 => {
                    let v = if s.chance(1, 2) { v } else { reals(s, smooth) };
                    Call { op: Op::BatchSum, args: vec![(sh, v)] }
                }
                1 => {
                    let lo = s.below(sh.batch);
                    let up = s.range(lo + 1, sh.batch);
                    Call { op: Op::BatchSlice(lo, up), args: vec![(sh, v)] }
                }
                2 => {
                    let n = if s.chance(1, 10) { s.range(6, 40) } else { s.range(1, 5) };
                    let m = s.range(1, 4);
                    Call { op: Op::BatchSplit(n), args: vec![(sh.with_batch(n * m), v)] }
                }
                3 => {
                    let n = if s.chance(1, 10) { s.range(8, 30) } else { s.range(1, 6) };
                    let ids = (0..n).map(|_| s.below(sh.batch)).collect();
                    Call { op: Op::BatchPick(ids), args: vec![(sh, v)] }
                }
                _ => {
                    let n = if s.chance(1, 12) { s.range(6, 20) } else { s.range(1, 5) };
                    let args = (0..n)
                        .map(|i| {
                            let b = batch(s, 5);
                            (sh.with_batch(b), Vals { mode: v.mode, seed: v.seed.wrapping_add(i * 131), exp: 0 })
                        })
                        .collect();
                    Call { op: Op::BatchConcat, args }
                }
            }
        }
    }
}

/// ids for pick: length 1, or the minibatch size; when x has no minibatch any length
pub fn pick_ids(s: &mut Src, sh: &Sh, d: u32, cap: u32) -> Vec<u32> {
    let n = if sh.batch > 1 {
        if s.chance(1, 3) {
            1
        } else {
            sh.batch
        }
    } else {
        batch(s, cap)
    };
    (0..n).map(|_| s.below(sh.d(d))).collect()
}

/// another factorisation of the same number of elements (minibatch may change)
pub fn refactor(s: &mut Src, sh: &Sh) -> Sh {
    let mut n = sh.size() as u32;
    let b = if s.chance(1, 3) {
        let divs: Vec<u32> = (1..=n.min(64)).filter(|d| n % d == 0).collect();
        *s.pick(&divs)
    } else if n % sh.batch == 0 {
        sh.batch
    } else {
        1
    };
    n /= b;
    let mut dims = vec![];
    for _ in 0..s.below(6) {
        let divs: Vec<u32> = (1..=n.min(64)).filter(|d| n % d == 0).collect();
        let d = *s.pick(&divs);
        dims.push(d);
        n /= d;
    }
    dims.push(n);
    Sh::new(&dims, b)
}
