use harness::*;

fn grad(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Const, Kind::Unary, Kind::Binary][s.weighted(&[3, 5, 5])];
    let l = Lim::choose(&mut s);
    let mut call = gen::call(&mut s, kind, l, true);
    // points where a power is zero, where it still has a derivative
    if let Op::Powi(n) = call.op {
        if n >= 0 && s.chance(1, 4) {
            call.args[0].1 = gen::vals(&mut s, Mode::Ints(2));
        }
    }
    if let Op::Powf(k) = &mut call.op {
        if s.chance(1, 4) {
            *k = *s.pick(&[2.0, 1.0, 0.0, 3.0]);
            call.args[0].1 = gen::vals(&mut s, Mode::Ints(2));
        }
    }
    gradient_call(&mut s, &call, ctx)
}

/// powers at zero and negative bases, wherever a derivative exists
fn special_bases(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let form = s.index(6);
    let negative = s.chance(1, 3);
    let l = Lim { depth: 3, vol: 24, batch: 3 };
    let sh = gen::shape(&mut s, l);
    let (a, b) = match form {
        0 | 4 | 5 => (sh.clone(), Sh::new(&[], if s.bool() { 1 } else { sh.batch })),
        1 => (Sh::new(&[], if s.bool() { 1 } else { sh.batch }), sh.clone()),
        2 => (Sh::new(&sh.dims, 1), sh.clone()),
        _ => (sh.clone(), Sh::new(&sh.dims, 1)),
    };
    let bases: &[f32] = if negative { &[-1.0, -2.0, -0.5, -3.0, 1.0, 2.0] } else { &[0.0, 0.0, 1.0, 2.0, 0.5] };
    let exponents: &[f32] = if negative { &[1.0, 2.0, 3.0, -1.0, -2.0, 0.0] } else { &[1.0, 2.0, 3.0, 1.5, 0.5, 0.0] };
    let n = |sh: &Sh| sh.size() as usize;
    let da: Vec<f32> = (0..n(&a)).map(|_| *s.pick(bases)).collect();
    let db: Vec<f32> = (0..n(&b)).map(|_| *s.pick(exponents)).collect();
    let (op, args, data) = match form {
        4 => (Op::Powf(db[0]), vec![a], vec![da]),
        5 => (Op::PowCL(da[0]), vec![sh.clone()], vec![(0..n(&sh)).map(|_| *s.pick(exponents)).collect()]),
        _ => (Op::Pow(0), vec![a, b], vec![da, db]),
    };
    let mut t = Tape::new();
    let rts: Vec<Rt> = args.iter().zip(&data).map(|(sh, d)| Rt::from_data(&mut t, sh, d)).collect();
    let out = op.eval(&mut t, &rts.iter().collect::<Vec<_>>()).pop().unwrap();
    if let Some(x) = t.bad {
        ctx.skip(x);
        return Ok(());
    }
    let base_ok = t.nondiff.is_none();
    // at a zero base the exponent must be above zero for a derivative by it
    let (zero, low, neg) = match &op {
        Op::PowCL(k) => (*k == 0.0, data[0].contains(&0.0), *k < 0.0),
        Op::Powf(_) => (data[0].contains(&0.0), false, false),
        _ => (data[0].contains(&0.0), data[1].contains(&0.0), data[0].iter().any(|&v| v < 0.0)),
    };
    let exponent_ok = !neg && !(zero && low);
    let cot = cotangent(&mut s, out.id.len());
    let prior: Vec<Vec<f32>> = rts.iter().map(|r| cotangent(&mut s, r.id.len())).collect();
    ctx.desc(|| format!("{:?} of {:?}, incoming gradient {:?}", op, args.iter().zip(&data).map(|(a, d)| format!("{} {:?}", a.show(), d)).collect::<Vec<_>>(), cot));
    ctx.key((format!("{:?}", op), args.iter().map(|a| a.show()).collect::<Vec<_>>(), data.iter().map(|d| bits(d)).collect::<Vec<_>>()));
    if zero || negative {
        ctx.nontrivial();
    }
    let mut seeds: Vec<(u32, f32)> = out.id.iter().copied().zip(cot.iter().copied()).collect();
    for (r, p) in rts.iter().zip(&prior) {
        seeds.extend(r.id.iter().copied().zip(p.iter().copied()));
    }
    let g = t.gradients(&seeds);
    let constant = matches!(op, Op::PowCL(_));
    let got = if constant {
        // there is no graph function of this one
        let dev = D::Naive::new();
        let x = mk(&dev, &args[0], &data[0]);
        let y = dev.powf_const_l_fw(&x, match op { Op::PowCL(k) => k, _ => 0.0 });
        let gy = mk(&dev, &args[0], &cot);
        let mut gx = mk(&dev, &args[0], &prior[0]);
        dev.powf_const_l_bw(&x, &y, &gy, match op { Op::PowCL(k) => k, _ => 0.0 }, &mut gx);
        vec![gx.to_vec()]
    } else {
        graph_vjp(&op, &args, &data, &prior, &[cot], Share::Owned)
    };
    if constant {
        if exponent_ok {
            check_grad("gradient of the exponent", &got[0], &g, &rts[0])?;
        }
        return Ok(());
    }
    if base_ok {
        check_grad("gradient of the base", &got[0], &g, &rts[0])?;
    }
    if exponent_ok && got.len() > 1 {
        check_grad("gradient of the exponent", &got[1], &g, &rts[1])?;
    }
    Ok(())
}

/// the device's own backward functions, called directly with dirty targets
fn device(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Const, Kind::Unary, Kind::Binary][s.weighted(&[3, 5, 5])];
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, true);
    let data = call.data();
    let mut t = Tape::new();
    let rts = leaves(&mut t, &call, &data);
    let out = call.op.eval(&mut t, &rts.iter().collect::<Vec<_>>()).pop().unwrap();
    if let Some(b) = t.bad.or(t.nondiff) {
        ctx.skip(b);
        return Ok(());
    }
    if call.op == Op::Softplus {
        ctx.skip("no backward kernel of its own");
        return Ok(());
    }
    // the two-operand kernels exist for equal dimensions only
    if call.args.len() == 2 && call.args[0].0.dims != call.args[1].0.dims {
        ctx.skip("scalar operand");
        return Ok(());
    }
    let cot = cotangent(&mut s, out.id.len());
    let prior: Vec<Vec<f32>> = rts.iter().map(|r| cotangent(&mut s, r.id.len())).collect();
    ctx.desc(|| call.show());
    ctx.label(call.op.name());
    ctx.nontrivial();
    let mut seeds: Vec<(u32, f32)> = out.id.iter().copied().zip(cot.iter().copied()).collect();
    for (r, p) in rts.iter().zip(&prior) {
        seeds.extend(r.id.iter().copied().zip(p.iter().copied()));
    }
    let g = t.gradients(&seeds);
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(&dev, sh, d)).collect();
    let y = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>()).pop().unwrap();
    let gy = mk(&dev, &out.sh, &cot);
    let mut gx: Vec<Tensor> = rts.iter().zip(&prior).map(|(r, p)| mk(&dev, &r.sh, p)).collect();
    let (x, rest) = (&xs[0], xs.get(1));
    use Op::*;
    macro_rules! one { ($f:ident $(, $k:expr)*) => { dev.$f(x, &y, &gy, $($k,)* &mut gx[0]) } }
    macro_rules! two { ($f:ident, $h:ident) => {{ let b = rest.unwrap(); dev.$f(x, b, &y, &gy, &mut gx[0]); dev.$h(x, b, &y, &gy, &mut gx[1]) }} }
    match call.op.clone() {
        Neg(_) => one!(neg_bw),
        AddC(k, _) => one!(add_const_bw, k),
        SubCL(k, _) => one!(sub_const_l_bw, k),
        SubCR(k, _) => one!(sub_const_r_bw, k),
        MulC(k, _) => one!(mul_const_bw, k),
        DivCL(k, _) => one!(div_const_l_bw, k),
        DivCR(k, _) => one!(div_const_r_bw, k),
        PowCL(k) => one!(powf_const_l_bw, k),
        Powf(k) => one!(powf_const_r_bw, k),
        Powi(k) => one!(powi_bw, k),
        Add(_) => two!(add_bw_a, add_bw_b),
        Sub(_) => two!(sub_bw_a, sub_bw_b),
        Mul(_) => two!(mul_bw_a, mul_bw_b),
        Div(_) => two!(div_bw_a, div_bw_b),
        Pow(_) => two!(powf_bw_a, powf_bw_b),
        Sqrt => one!(sqrt_bw),
        Abs => one!(abs_bw),
        Sin => one!(sin_bw),
        Cos => one!(cos_bw),
        Tan => one!(tan_bw),
        Exp => one!(exp_bw),
        Ln => one!(ln_bw),
        Tanh => one!(tanh_bw),
        Sigmoid => one!(sigmoid_bw),
        Relu => one!(prelu_bw, 0.0),
        Lrelu => one!(prelu_bw, 0.01),
        Prelu(k) => one!(prelu_bw, k),
        Elu(k) => one!(elu_bw, k),
        _ => {}
    }
    for i in 0..rts.len() {
        check_grad(&format!("gradient of operand {} by the device function of {}", i, call.op.name()), &gx[i].to_vec(), &g, &rts[i])?;
        check_bits("operand afterwards", &xs[i].to_vec(), &data[i])?;
    }
    check_bits("incoming gradient afterwards", &gy.to_vec(), &cot)
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| grad(case, ctx))
}

/// the same with an extent past 16 bits
fn long_device(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| device(case, ctx))
}

/// at a corner, where two one-sided derivatives differ, what arrives lies between them
fn kinks(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let k = *s.pick(&[0.5f32, 0.25, -0.5, -1.0, 1.0, 2.0, 0.0]);
    let op = [Op::Abs, Op::Relu, Op::Lrelu, Op::Prelu(k), Op::Elu(k)][s.index(5)].clone();
    let left = match op {
        Op::Abs => -1.0,
        Op::Relu => 0.0,
        Op::Lrelu => 0.01f32,
        _ => k,
    };
    let l = Lim { depth: 3, vol: 24, batch: 3 };
    let sh = gen::shape(&mut s, l);
    let n = sh.size() as usize;
    let direct = s.bool();
    let mut r = mix(s.word() as u64);
    let mut next = |m: u64| {
        r = mix(r);
        (r >> 20) % m
    };
    let data: Vec<f32> = (0..n).map(|_| [0.0, -0.0, 0.0, 1.0, -1.0, 2.0, f32::MIN_POSITIVE, -1e-40][next(8) as usize]).collect();
    let cot: Vec<f32> = (0..n).map(|_| next(9) as f32 - 4.0).collect();
    let prior: Vec<f32> = (0..n).map(|_| next(9) as f32 - 4.0).collect();
    ctx.desc(|| format!("{:?} of {} {:?}, incoming {:?}, before {:?}", op, sh.show(), data, cot, prior));
    ctx.key((format!("{:?}", op), bits(&data), bits(&cot), direct));
    if data.iter().zip(&cot).any(|(x, c)| *x == 0.0 && *c != 0.0) {
        ctx.nontrivial();
    }
    ctx.label(op.name());
    let got = if direct {
        let dev = D::Naive::new();
        let x = mk(&dev, &sh, &data);
        let y = apply_tensor(&op, &[&x]).pop().unwrap();
        let gy = mk(&dev, &sh, &cot);
        let mut gx = mk(&dev, &sh, &prior);
        match op {
            Op::Abs => dev.abs_bw(&x, &y, &gy, &mut gx),
            Op::Elu(k) => dev.elu_bw(&x, &y, &gy, k, &mut gx),
            _ => dev.prelu_bw(&x, &y, &gy, left, &mut gx),
        }
        gx.to_vec()
    } else {
        graph_vjp(&op, &[sh.clone()], &[data.clone()], &[prior.clone()], &[cot.clone()], Share::Owned).pop().unwrap()
    };
    for i in 0..n {
        let (c, b) = (cot[i] as f64, prior[i] as f64);
        let (lo, hi) = if data[i] == 0.0 {
            (left.min(1.0) as f64, left.max(1.0) as f64)
        } else if data[i] > 0.0 {
            (1.0, 1.0)
        } else if matches!(op, Op::Elu(_)) && data[i] < -0.5 {
            (left as f64 * (data[i] as f64).exp(), left as f64 * (data[i] as f64).exp())
        } else {
            (left as f64, left as f64)
        };
        let (lo, hi) = (b + (c * lo).min(c * hi), b + (c * lo).max(c * hi));
        let slack = 4e-6;
        let g = got[i] as f64;
        if !(g >= lo - slack && g <= hi + slack) {
            return Err(format!("gradient of {}: element {} at {:?} with incoming {} on {} got {}, not within {} and {}", op.name(), i, data[i], c, b, g, lo, hi));
        }
    }
    Ok(())
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Const, Kind::Unary, Kind::Binary], true)
}

fn main() {
    run_main(Check {
        id: "C07",
        rule: "graph: one elementwise operation in a graph whose root injects an arbitrary cotangent into its result and arbitrary earlier content into the operands' gradients; every operand gradient against the f64 adjoint with a rounding bound (exact for integers), summed where operands were repeated, both operands sometimes the same value; special-bases: powers of zero and of negative bases, by every form, wherever the derivative exists; device: the device's backward functions called directly; kinks: at the corners of abs, relu, lrelu, prelu and elu what arrives lies between the one-sided derivatives. Non-trivial when the cotangent is not all zero. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &["at kinks any value between the one-sided derivatives is accepted; zero bases with fractional or negative exponents are left out", "the derivative by an exponent is compared for positive bases, and at zero bases for positive exponents"],
        subs: vec![
            Sub { name: "graph", head: 36, steps: (0, 0), step_len: 0, quick: 250_000, thorough: 10_000_000, run: grad },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "special-bases", head: 200, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: special_bases },
            Sub { name: "kinks", head: 24, steps: (0, 0), step_len: 0, quick: 30_000, thorough: 1_200_000, run: kinks },
            Sub { name: "device", head: 36, steps: (0, 0), step_len: 0, quick: 120_000, thorough: 4_800_000, run: device },
            Sub { name: "long", head: 42, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
            Sub { name: "long_device", head: 42, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long_device },
        ],
    })
}
