use harness::*;

const O: Opts = Opts { samplewise: true, max_size: 400, ..Opts::DEFAULT };
const OS: Opts = Opts { samplewise: true, smooth: true, max_size: 300, ..Opts::DEFAULT };

fn sample_op(op: &Op, b: usize) -> Op {
    match op {
        Op::Pick(ids, d) if ids.len() > 1 => Op::Pick(vec![ids[b]], *d),
        Op::SparseSoftmaxCE(ids, d) if ids.len() > 1 => Op::SparseSoftmaxCE(vec![ids[b]], *d),
        Op::Reshape(s) => Op::Reshape(s.with_batch(1)),
        o => o.clone(),
    }
}

fn sample_data(sh: &Sh, d: &[f32], b: usize) -> Vec<f32> {
    let n = sh.volume();
    let b = if sh.batch == 1 { 0 } else { b };
    d[b * n..(b + 1) * n].to_vec()
}

fn sample_prog(p: &Prog, b: usize) -> Prog {
    Prog {
        leaves: p.leaves.iter().map(|(sh, d)| (sh.with_batch(1), sample_data(sh, d, b))).collect(),
        steps: p.steps.iter().map(|s| prog::Step { op: sample_op(&s.op, b), ..s.clone() }).collect(),
        shapes: p.shapes.iter().map(|s| s.with_batch(1)).collect(),
    }
}

fn nbatch(p: &Prog) -> usize {
    p.shapes.iter().map(|s| s.batch).max().unwrap() as usize
}

fn forward(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &O);
    let p = &b.prog;
    let n = nbatch(p);
    ctx.desc(|| p.show());
    if n > 1 && !p.steps.is_empty() {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let all = run_tensors(&dev, p);
    for k in 0..n {
        let q = sample_prog(p, k);
        let one = run_tensors(&dev, &q);
        for i in 0..p.len() {
            let vol = p.shapes[i].volume();
            let full = all[i].to_vec();
            let kk = if p.shapes[i].batch == 1 { 0 } else { k };
            let got = &full[kk * vol..(kk + 1) * vol];
            for (j, (&x, &y)) in got.iter().zip(&one[i].to_vec()).enumerate() {
                let e = b.tape.err(b.rts[i].id[kk * vol + j]);
                if (x as f64 - y as f64).abs() > 2.0 * SLACK * e || !(x.is_finite() && y.is_finite()) {
                    return Err(format!("v{} element {} of sample {}: {:?} within the minibatch, {:?} alone", i, j, k, x, y));
                }
            }
        }
    }
    Ok(())
}

/// whatever accompanies a sample does not influence it, bit for bit
fn isolation(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &O);
    let p = &b.prog;
    let n = nbatch(p);
    let mut s = Src::new(&case.head[24..]);
    let k = s.index(n);
    let wild = *s.pick(&[0.0f32, 1e30, -5.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    let lazy = s.bool();
    ctx.desc(|| format!("{} sample {} among {:?}", p.show(), k, wild));
    if n > 1 && !p.steps.is_empty() {
        ctx.nontrivial();
    }
    let mut q = p.clone();
    for (sh, d) in q.leaves.iter_mut() {
        if sh.batch > 1 {
            let v = sh.volume();
            for (i, x) in d.iter_mut().enumerate() {
                if i / v != k {
                    *x = wild;
                }
            }
        }
    }
    let dev = D::Naive::new();
    let run = |p: &Prog| -> Vec<Vec<f32>> {
        if lazy {
            build_nodes(&dev, p).iter().map(|n| n.to_vec()).collect()
        } else {
            run_tensors(&dev, p).iter().map(|t| t.to_vec()).collect()
        }
    };
    let a = run(p);
    let c = run(&q);
    for i in 0..p.len() {
        let vol = p.shapes[i].volume();
        let kk = if p.shapes[i].batch == 1 { 0 } else { k };
        check_bits(&format!("v{} of sample {}", i, k), &c[i][kk * vol..(kk + 1) * vol], &a[i][kk * vol..(kk + 1) * vol])?;
    }
    Ok(())
}

/// gradients: the minibatch's are the sum of the samples'
fn gradients(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &OS);
    let p = &b.prog;
    let n = nbatch(p);
    let root = p.len() - 1;
    ctx.desc(|| p.show());
    let nr = p.shapes[root].batch as usize;
    if nr > 1 && !p.steps.is_empty() {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let nodes = build_nodes(&dev, p);
    nodes[root].backward();
    let cone = p.cone(&[root]);
    let nl = p.leaves.len();
    let mut sum: Vec<Vec<f64>> = p.leaves.iter().map(|(sh, _)| vec![0.0; sh.size()]).collect();
    let mut mag: Vec<Vec<f64>> = sum.clone();
    let mut slack: Vec<Vec<f64>> = sum.clone();
    for k in 0..nr.max(1) {
        let q = sample_prog(p, k.min(n - 1));
        let one = build_nodes(&dev, &q);
        one[root].backward();
        // what rounding may do to the sample on its own
        let mut t = Tape::new();
        let mut r: Vec<Rt> = q.leaves.iter().map(|(sh, d)| Rt::from_data(&mut t, sh, d)).collect();
        for st in &q.steps {
            let ys = st.op.eval(&mut t, &st.args.iter().map(|&i| &r[i]).collect::<Vec<_>>());
            r.extend(ys);
        }
        let ge = t.gradients(&r[root].id.iter().map(|&i| (i, 1.0)).collect::<Vec<_>>());
        for i in (0..nl).filter(|&i| cone[i]) {
            let vol = p.leaves[i].0.volume();
            let off = if p.leaves[i].0.batch == 1 { 0 } else { k * vol };
            for (j, g) in one[i].inner_gradient().to_vec().iter().enumerate() {
                sum[i][off + j] += *g as f64;
                mag[i][off + j] += g.abs() as f64;
                slack[i][off + j] += ge.e[r[i].id[j] as usize];
            }
        }
    }
    let seeds: Vec<(u32, f32)> = b.rts[root].id.iter().map(|&i| (i, 1.0)).collect();
    let g = b.tape.gradients(&seeds);
    for i in (0..nl).filter(|&i| cone[i]) {
        let got = nodes[i].inner_gradient().to_vec();
        for (j, &x) in got.iter().enumerate() {
            let tol = SLACK * (g.e[b.rts[i].id[j] as usize] + slack[i][j]) + 1e-6 * mag[i][j] + 1e-40;
            if !((x as f64 - sum[i][j]).abs() <= tol) {
                return Err(format!("gradient of input {} at {}: {:?} with the minibatch, {:?} summed over samples", i, j, x, sum[i][j]));
            }
        }
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C14",
        rule: "random programs of per-sample operations over inputs with and without minibatch: forward: every value of every sample against the same program on that sample alone; isolation: all other samples replaced by zeros, huge values, infinities or NaN leave the sample bit for bit the same, eagerly or lazily; gradients: input and parameter gradients against the sum of per-sample passes. Non-trivial when some value has a minibatch and the program an operation.",
        assumptions: &["values are compared up to the reference's rounding bound, since per-sample kernels may sum in another order"],
        subs: vec![
            Sub { name: "forward", head: 40, steps: (1, 12), step_len: 36, quick: 200_000, thorough: 8_000_000, run: forward },
            Sub { name: "isolation", head: 40, steps: (1, 12), step_len: 36, quick: 200_000, thorough: 8_000_000, run: isolation },
            Sub { name: "gradients", head: 40, steps: (1, 12), step_len: 36, quick: 160_000, thorough: 6_400_000, run: gradients },
        ],
    })
}
