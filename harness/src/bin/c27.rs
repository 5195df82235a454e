use harness::*;

fn content(s: &mut Src) -> Vals {
    let m = *s.pick(&[
        Mode::Signed(0.3, 2.0),
        Mode::Ints(5),
        Mode::Real(-1.0, 1.0),
        Mode::Real(20.0, 24.0),
        Mode::Log(-8, 8),
        Mode::Iota,
        Mode::Ties(3),
        Mode::Const(1.5),
    ]);
    Vals { mode: m, seed: s.word(), exp: 0 }
}

/// what an affine factor of a normalisation may look like
fn factor(s: &mut Src, sh: &Sh) -> Sh {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => sh.with_batch(1),
        1 => Sh::new(&[], 1),
        2 => sh.clone(),
        _ => Sh::new(&[], sh.batch),
    }
}

fn make(s: &mut Src) -> Call {
    let l = [Lim::SMALL, Lim::MID, Lim::BIG][s.weighted(&[7, 3, 1])];
    let sh = gen::shape(s, l);
    let sh = if sh.batch == 1 && s.bool() { sh.with_batch(s.range(2, 7)) } else { sh };
    let v = content(s);
    match s.weighted(&[3, 2, 3, 4, 4]) {
        0 => {
            let d = gen::dim(s, &sh);
            Call { op: Op::Mean(d), args: vec![(sh, v)] }
        }
        1 => Call { op: Op::BatchMean, args: vec![(sh, v)] },
        2 => {
            let n = if s.chance(1, 8) { s.range(7, 40) } else { s.range(1, 6) };
            let args = (0..n)
                .map(|_| {
                    let b = if s.bool() { sh.batch } else { 1 };
                    let x = if s.chance(1, 5) { Sh::new(&[], b) } else { sh.with_batch(b) };
                    (x, content(s))
                })
                .collect();
            Call { op: Op::SliceSum, args }
        }
        k => {
            let eps = *s.pick(&[1e-3f32, 0.1, 1.0, 1e-5, 0.5]);
            let (g, b) = (factor(s, &sh), factor(s, &sh));
            let op = if k == 3 { Op::BatchNorm(eps, !s.chance(1, 6)) } else { Op::LayerNorm(eps) };
            Call { op, args: vec![(sh, v), (g, content(s)), (b, content(s))] }
        }
    }
}

fn forward(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let call = make(&mut s);
    forward_call(&call, ctx)?;
    // graphs say the same, bit for bit
    let data = call.data();
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(&dev, sh, d)).collect();
    let ys = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let zs = apply_node(&call.op, &ns.iter().collect::<Vec<_>>());
    for (y, z) in ys.iter().zip(&zs) {
        if y.shape() != z.shape() {
            return Err(format!("tensor gives shape {:?}, graph {:?}", y.shape(), z.shape()));
        }
        let (a, b) = (y.to_vec(), z.to_vec());
        if a.iter().zip(&b).any(|(p, q)| p != q && !(p.is_nan() && q.is_nan())) {
            check_bits("graph against tensor", &b, &a)?;
        }
    }
    Ok(())
}

fn gradient(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let call = make(&mut s);
    gradient_call(&mut s, &call, ctx)
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (w, n, one, grad) = (s.word() as u64, s.range(2, 5) as usize, s.bool(), s.bool());
    let base = make(&mut s);
    a_row(&mut s, &base, w, n, one, ctx, grad)
}

/// statistics of what a normalisation returns, and how it reacts to shifts and scaling of its input
fn laws(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = gen::shape(&mut s, Lim::MID);
    let sh = if sh.batch == 1 { sh.with_batch(s.range(2, 6)) } else { sh };
    let batchwise = s.bool();
    let x = Vals { mode: Mode::Signed(0.5, 4.0), seed: s.word(), exp: 0 }.fill(sh.size());
    let (vol, nb) = (sh.volume(), sh.batch as usize);
    let eps = 1e-6f32;
    ctx.desc(|| format!("{} of {} {:?}", if batchwise { "batch" } else { "layer" }, sh.show(), x.iter().take(6).collect::<Vec<_>>()));
    if vol > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let one = dev.new_tensor_by_constant(Shape::new(&[], 1), 1.0);
    let zero = dev.new_tensor_by_constant(Shape::new(&[], 1), 0.0);
    let norm = |d: &[f32]| -> Vec<f32> {
        let t = mk(&dev, &sh, d);
        if batchwise {
            t.batch_normalization(&one, &zero, eps, true).to_vec()
        } else {
            t.layer_normalization(&one, &zero, eps).to_vec()
        }
    };
    let y = norm(&x);
    let groups: Vec<Vec<usize>> = if batchwise { (0..vol).map(|i| (0..nb).map(|b| b * vol + i).collect()).collect() } else { (0..nb).map(|b| (0..vol).map(|i| b * vol + i).collect()).collect() };
    for g in groups {
        let n = g.len() as f64;
        let v: Vec<f64> = g.iter().map(|&i| y[i] as f64).collect();
        let xs: Vec<f64> = g.iter().map(|&i| x[i] as f64).collect();
        let m = v.iter().sum::<f64>() / n;
        let var = v.iter().map(|a| (a - m) * (a - m)).sum::<f64>() / n;
        let mx = xs.iter().sum::<f64>() / n;
        let vx = xs.iter().map(|a| (a - mx) * (a - mx)).sum::<f64>() / n;
        if vx < 0.05 {
            continue;
        }
        let want = vx / (vx + eps as f64);
        if m.abs() > 1e-3 || (var - want).abs() > 1e-3 {
            return Err(format!("normalised values have mean {} and variance {}, expected 0 and {}", m, var, want));
        }
        for (&a, &b) in v.iter().zip(&xs) {
            let w = (b - mx) / (vx + eps as f64).sqrt();
            if (a - w).abs() > 1e-3 * (1.0 + w.abs()) {
                return Err(format!("normalised value {} expected {}", a, w));
            }
        }
    }
    // per sample: a mean over a dimension is the mean of the slices
    let d = s.below(sh.depth().max(1));
    let t = mk(&dev, &sh, &x);
    let k = sh.d(d);
    let parts: Vec<Tensor> = (0..k).map(|i| t.slice(d, i, i + 1)).collect();
    let sum = Tensor::slice_sum(&parts.iter().collect::<Vec<_>>());
    let (a, b) = (t.mean(d).to_vec(), sum.to_vec());
    for (p, q) in a.iter().zip(&b) {
        if (p * k as f32 - q).abs() > 1e-5 * k as f32 * 4.0 {
            return Err(format!("mean along {} is {}, the slices sum to {} over {}", d, p, q, k));
        }
    }
    let samples = t.batch_split(sh.batch);
    let s2 = Tensor::slice_sum(&samples.iter().collect::<Vec<_>>()).to_vec();
    for (p, q) in t.batch_mean().to_vec().iter().zip(&s2) {
        if (p * nb as f32 - q).abs() > 1e-5 * nb as f32 * 4.0 {
            return Err(format!("minibatch mean is {}, the samples sum to {} over {}", p, q, nb));
        }
    }
    Ok(())
}

/// the same value several times in one sum
fn repeated(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = gen::shape(&mut s, Lim::SMALL);
    let k = s.range(1, 3) as usize;
    let n = s.range(1, 7);
    let which: Vec<usize> = (0..n).map(|_| s.index(k)).collect();
    let data: Vec<Vec<f32>> = (0..k).map(|i| Vals { mode: Mode::Ints(9), seed: i as u32 + 1, exp: 0 }.fill(sh.size())).collect();
    ctx.desc(|| format!("sum of values {:?} of {}", which, sh.show()));
    if n > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let ts: Vec<Tensor> = data.iter().map(|d| mk(&dev, &sh, d)).collect();
    let eager = Tensor::slice_sum(&which.iter().map(|&i| &ts[i]).collect::<Vec<_>>()).to_vec();
    let xs: Vec<Node> = data.iter().map(|d| Node::from(mk(&dev, &sh, d))).collect();
    let list: Vec<&Node> = which.iter().map(|&i| &xs[i]).collect();
    let y = Node::slice_sum(&list);
    let want: Vec<f32> = (0..sh.size()).map(|i| which.iter().map(|&w| data[w][i]).sum()).collect();
    check_exact("sum of tensors", &eager, &want)?;
    check_exact("sum", &y.to_vec(), &want)?;
    y.backward();
    for (i, x) in xs.iter().enumerate() {
        let c = which.iter().filter(|&&w| w == i).count() as f32;
        if c > 0.0 && x.inner_gradient().to_vec().iter().any(|&g| g != c) {
            return Err(format!("value {} is used {} times, its gradient is {:?}", i, c, x.inner_gradient().to_vec()));
        }
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C27",
        rule: "generated means, slice sums, batch and layer normalisations (operands of any shape, scalar or per-sample factors): values and vector-Jacobian products against the f64 reference, tensors and graphs bit for bit alike; laws: normalised groups have mean 0 and variance v/(v+eps), means equal sums of slices and samples; repeated: one value several times in a sum. row: a call and up to five others that resemble it, in turn, forward or backward, on one device or several. Non-trivial: more than one element, a cotangent that is not zero.",
        assumptions: &["eps above zero"],
        subs: vec![
            Sub { name: "forward", head: 60, steps: (0, 0), step_len: 0, quick: 120_000, thorough: 4_800_000, run: forward },
            Sub { name: "gradient", head: 80, steps: (0, 0), step_len: 0, quick: 120_000, thorough: 4_800_000, run: gradient },
            Sub { name: "row", head: 110, steps: (0, 0), step_len: 0, quick: 20_000, thorough: 800_000, run: in_a_row },
            Sub { name: "laws", head: 24, steps: (0, 0), step_len: 0, quick: 36_000, thorough: 1_440_000, run: laws },
            Sub { name: "repeated", head: 24, steps: (0, 0), step_len: 0, quick: 18_000, thorough: 720_000, run: repeated },
        ],
    })
}
