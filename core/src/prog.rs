//! Random well-conditioned programs over the operation vocabulary: a list of leaves and a list of
//! steps, each applying one operation to earlier values. Steps are accepted only while the
//! reference evaluation stays in the domain where its error bounds are meaningful, so every program
//! built here is a valid test of everything it contains.
use crate::engine::Case;
use crate::ops::Op;
use crate::rt::{Rt, Sh};
use crate::src::{mix, Mode, Src, Vals};
use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub args: Vec<usize>,
    /// index of the first result among all values
    pub first: usize,
    pub n: usize,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub leaves: Vec<(Sh, Vec<f32>)>,
    pub steps: Vec<Step>,
    pub shapes: Vec<Sh>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// only points where every operation has a derivative
    pub smooth: bool,
    /// only operations that treat each sample by itself
    pub samplewise: bool,
    /// operations composed from several others (means, normalisation)
    pub contrib: bool,
    pub max_size: usize,
    /// all leaves have minibatch size one
    pub no_batch_leaves: bool,
    /// bound on the reference's relative uncertainty of every value
    pub max_err: f64,
}

impl Opts {
    pub const DEFAULT: Opts = Opts {
        smooth: false,
        samplewise: false,
        contrib: true,
        max_size: 400,
        no_batch_leaves: false,
        max_err: 2e-4,
    };
}

/// how many further operands, and words to choose them with
fn more(s: &mut Src) -> Vec<u32> {
    let n = if s.chance(1, 8) { s.range(3, 16) } else { s.below(3) };
    let seed = s.word();
    let mut v = vec![n];
    v.extend((0..8 * n as u64).map(|i| if seed == 0 { 0 } else { mix((seed as u64) << 32 | i) as u32 }));
    v
}

pub struct Built {
    pub prog: Prog,
    pub tape: Tape,
    pub rts: Vec<Rt>,
}

impl Prog {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, (sh, d)) in self.leaves.iter().enumerate() {
            let v: Vec<String> = d.iter().take(6).map(|x| format!("{:?}", x)).collect();
            s += &format!("v{} = leaf {} [{}{}]; ", i, sh.show(), v.join(","), if d.len() > 6 { ",.." } else { "" });
        }
        for st in &self.steps {
            let outs: Vec<String> = (0..st.n).map(|k| format!("v{}", st.first + k)).collect();
            let ins: Vec<String> = st.args.iter().map(|a| format!("v{}", a)).collect();
            s += &format!("{} = {:?}({}); ", outs.join(","), st.op, ins.join(","));
        }
        s
    }

    pub fn len(&self) -> usize {
        self.shapes.len()
    }

    /// which values the given ones depend on (including themselves)
    pub fn cone(&self, roots: &[usize]) -> Vec<bool> {
        let mut need = vec![false; self.len()];
        for &r in roots {
            need[r] = true;
        }
        for st in self.steps.iter().rev() {
            if (st.first..st.first + st.n).any(|v| need[v]) {
                for &a in &st.args {
                    need[a] = true;
                }
            }
        }
        need
    }
}

fn leaf(s: &mut Src, ext: &[u32; 3], b: u32, o: &Opts) -> (Sh, Vec<f32>) {
    let [p, q, r] = *ext;
    let dims: Vec<u32> = match s.weighted(&[4, 4, 2, 2, 1, 1]) {
        0 => vec![p, q],
        1 => vec![p],
        2 => vec![],
        3 => vec![q, p],
        4 => vec![p, q, r],
        _ => vec![q],
    };
    let batch = if o.no_batch_leaves || s.chance(2, 5) { 1 } else { b };
    let sh = Sh::new(&dims, batch);
    let m = *s.pick(&[
        Mode::Signed(0.3, 2.0),
        Mode::Real(0.2, 2.0),
        Mode::Ints(3),
        Mode::Signed(0.1, 1.0),
        Mode::Distinct,
    ]);
    let v = Vals { mode: m, seed: s.word(), exp: 0 };
    let d = v.fill(sh.size());
    (sh, d)
}

/// one attempt at a step
fn choose(s: &mut Src, shapes: &[Sh], o: &Opts) -> Option<(Op, Vec<usize>)> {
    let n = shapes.len();
    // recent values twice as often
    let any = |s: &mut Src| {
        if s.bool() {
            n - 1 - s.index(n.min(3))
        } else {
            s.index(n)
        }
    };
    let x = any(s);
    let sx = &shapes[x];
    let partner = |s: &mut Src, ok: &dyn Fn(&Sh) -> bool| -> usize {
        let c: Vec<usize> = (0..n).filter(|&i| ok(&shapes[i])).collect();
        if c.is_empty() {
            x
        } else {
            c[s.index(c.len())]
        }
    };
    let k = |s: &mut Src| *s.pick(&[2.0f32, 0.5, -1.5, 1.0, 3.0, -0.25, 0.1]);
    let dim = |s: &mut Src| {
        let d = sx.depth();
        if s.chance(1, 10) || d == 0 {
            s.range(d.min(7), (d + 1).min(7))
        } else {
            s.below(d)
        }
    };
    let fam = s.weighted(&[6, 5, 7, 4, 2, 3, 6, if o.samplewise { 0 } else { 4 }, if o.contrib { 2 } else { 0 }]);
    let one = |op: Op| Some((op, vec![x]));
    match fam {
        0 => {
            let v = s.below(16) as u8;
            let c = k(s);
            one(match s.below(6) {
                0 => Op::AddC(c, v),
                1 => Op::SubCL(c, v),
                2 => Op::SubCR(c, v),
                3 => Op::MulC(c, v),
                4 => Op::DivCR(c, v),
                _ => Op::DivCL(c, v),
            })
        }
        1 => {
            let c = k(s);
            one(match s.below(19) {
                0 => Op::Neg(s.below(4) as u8),
                1 => Op::Tanh,
                2 => Op::Sigmoid,
                3 => Op::Sin,
                4 => Op::Cos,
                5 => Op::Exp,
                6 => Op::Softplus,
                7 => Op::Relu,
                8 => Op::Lrelu,
                9 => Op::Prelu(c),
                10 => Op::Elu(c),
                11 => Op::Abs,
                12 => Op::Sqrt,
                13 => Op::Ln,
                14 => Op::Powi(*s.pick(&[2, 3, -1, 1, 0])),
                15 => Op::Tan,
                16 => Op::Powf(*s.pick(&[2.0, 0.5, -1.0])),
                17 => Op::PowCL(*s.pick(&[2.0, 0.5])),
                _ => Op::Softplus,
            })
        }
        2 => {
            let y = partner(s, &|t: &Sh| Op::Add(0).shapes(&[sx, t]).is_some());
            let v = s.below(8) as u8;
            let (a, b) = if s.bool() { (x, y) } else { (y, x) };
            let op = match s.weighted(&[4, 3, 4, 3, 1]) {
                0 => Op::Add(v),
                1 => Op::Sub(v),
                2 => Op::Mul(v),
                3 => Op::Div(v),
                _ => Op::Pow(v & 3),
            };
            Some((op, vec![a, b]))
        }
        3 => {
            let d = dim(s);
            one(match s.below(5) {
                0 => Op::Sum(d),
                1 => Op::Max(d),
                2 => Op::Min(d),
                3 => Op::Logsumexp(d),
                _ => {
                    let c: Vec<u32> = (0..8u32.min(sx.depth() + 2)).filter(|&i| sx.d(i) == 1).collect();
                    Op::Broadcast(*s.pick(&c), s.range(2, 3))
                }
            })
        }
        4 => {
            let d = dim(s);
            match s.below(4) {
                0 => one(Op::Softmax(d)),
                1 => one(Op::LnSoftmax(d)),
                2 => {
                    // the target must be a distribution along d: the softmax of another value
                    None.or_else(|| one(Op::Softmax(d)))
                }
                _ => {
                    let ids = crate::gen::pick_ids(s, sx, d, 4);
                    let ids = if o.samplewise && sx.batch == 1 { vec![ids[0]] } else { ids };
                    one(Op::SparseSoftmaxCE(ids, d))
                }
            }
        }
        5 => match s.weighted(&[6, 3, 1, 1]) {
            0 => {
                let y = partner(s, &|t: &Sh| Op::Matmul(0).shapes(&[sx, t]).is_some());
                Some((Op::Matmul(s.below(4) as u8), vec![x, y]))
            }
            1 => one(Op::Transpose),
            2 => one(Op::TriL(s.below(3))),
            _ => one(Op::TriU(s.below(3))),
        },
        6 => {
            let d = dim(s);
            match s.below(7) {
                0 => {
                    let m = sx.d(d);
                    let lo = s.below(m);
                    one(Op::Slice(d, lo, s.range(lo + 1, m)))
                }
                1 => {
                    let m = sx.d(d);
                    let c: Vec<u32> = (1..=m.min(16)).filter(|i| m % i == 0).collect();
                    one(Op::Split(d, c[c.len() - 1 - s.index(c.len())]))
                }
                2 => {
                    let ids = crate::gen::pick_ids(s, sx, d, 4);
                    let ids = if o.samplewise && sx.batch == 1 { vec![ids[0]] } else { ids };
                    one(Op::Pick(ids, d))
                }
                3 | 4 => {
                    let ws = more(s);
                    let mut e = Src::new(&ws);
                    let mut a = vec![x];
                    for _ in 0..e.word() {
                        let last = a[0];
                        a.push(partner(&mut e, &|t: &Sh| Op::Concat(d).shapes(&[&shapes[last], t]).is_some()));
                    }
                    Some((Op::Concat(d), a))
                }
                5 => {
                    let to = crate::gen::refactor(s, sx);
                    let to = if o.samplewise { Sh::new(&[sx.volume() as u32], sx.batch) } else { to };
                    one(Op::Reshape(to))
                }
                _ => one(Op::Flatten),
            }
        }
        7 => {
            let b = sx.batch;
            match s.below(5) {
                0 => one(Op::BatchSum),
                1 => {
                    let lo = s.below(b);
                    one(Op::BatchSlice(lo, s.range(lo + 1, b)))
                }
                2 => {
                    let c: Vec<u32> = (1..=b.min(16)).filter(|i| b % i == 0).collect();
                    one(Op::BatchSplit(c[c.len() - 1 - s.index(c.len())]))
                }
                3 => {
                    let m = s.range(1, 4);
                    one(Op::BatchPick((0..m).map(|_| s.below(b)).collect()))
                }
                _ => {
                    let ws = more(s);
                    let mut e = Src::new(&ws);
                    let mut a = vec![x];
                    for _ in 0..e.word() {
                        a.push(partner(&mut e, &|t: &Sh| t.dims == sx.dims));
                    }
                    Some((Op::BatchConcat, a))
                }
            }
        }
        _ => {
            let d = dim(s);
            match s.below(5) {
                0 => one(Op::Mean(d)),
                1 if !o.samplewise => one(Op::BatchMean),
                2 => {
                    let ws = more(s);
                    let mut e = Src::new(&ws);
                    let mut a = vec![x];
                    for _ in 0..e.word() {
                        a.push(partner(&mut e, &|t: &Sh| Op::Add(0).shapes(&[sx, t]).is_some()));
                    }
                    Some((Op::SliceSum, a))
                }
                3 => one(Op::DropoutOff(0.5)),
                _ => one(Op::Mean(d)),
            }
        }
    }
}

/// attempts to apply op; on success returns the results
pub fn try_step(tape: &mut Tape, rts: &[Rt], op: &Op, args: &[usize], o: &Opts) -> Option<Vec<Rt>> {
    let xs: Vec<&Rt> = args.iter().map(|&a| &rts[a]).collect();
    let shs: Vec<&Sh> = xs.iter().map(|r| &r.sh).collect();
    let out = op.shapes(&shs)?;
    let total: usize = out.iter().map(|s| s.size()).sum();
    if total > o.max_size {
        return None;
    }
    let work: usize = match op {
        Op::Matmul(_) => total * xs[0].sh.d(1) as usize,
        _ => total,
    };
    if work > 20 * o.max_size {
        return None;
    }
    // the derivative of a^b with respect to b exists only for positive a
    if o.smooth && matches!(op, Op::Pow(_)) && xs[0].vals(tape).iter().any(|&v| v <= 0.0) {
        return None;
    }
    let mark = tape.len();
    let r = op.eval(tape, &xs);
    let mut ok = tape.bad.is_none() && !(o.smooth && tape.nondiff.is_some());
    ok = ok
        && (mark..tape.len()).all(|i| {
            let v = tape.val(i as u32);
            v.abs() < 2e3 && (v == 0.0 || v.abs() > 1e-6) && tape.err(i as u32) <= o.max_err * (0.1 + v.abs())
        });
    if !ok {
        tape.truncate(mark);
        return None;
    }
    tape.nondiff = None;
    Some(r)
}

pub fn build(case: &Case, o: &Opts) -> Built {
    let mut s = Src::new(&case.head);
    let ext = [s.range(2, 4), s.range(2, 3), s.range(1, 3)];
    let b = s.range(2, 4);
    let nl = s.range(1, 4) as usize;
    let mut tape = Tape::new();
    let mut prog = Prog { leaves: vec![], steps: vec![], shapes: vec![] };
    let mut rts = vec![];
    for i in 0..nl {
        let (mut sh, mut d) = leaf(&mut s, &ext, b, o);
        if i > 0 && s.chance(1, 10) {
            // equal to the one before
            (sh, d) = prog.leaves[i - 1].clone();
        }
        rts.push(Rt::from_data(&mut tape, &sh, &d));
        prog.shapes.push(sh.clone());
        prog.leaves.push((sh, d));
    }
    for words in &case.steps {
        let mut s = Src::new(words);
        for _ in 0..4 {
            let Some((op, args)) = choose(&mut s, &prog.shapes, o) else { continue };
            if let Some(r) = try_step(&mut tape, &rts, &op, &args, o) {
                prog.steps.push(Step { op, args, first: rts.len(), n: r.len() });
                for x in r {
                    prog.shapes.push(x.sh.clone());
                    rts.push(x);
                }
                break;
            }
        }
    }
    Built { prog, tape, rts }
}
