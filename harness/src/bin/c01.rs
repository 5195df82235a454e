use harness::*;

fn fwd(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Const, Kind::Unary, Kind::Binary][s.weighted(&[3, 5, 4])];
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, false);
    forward_call(&call, ctx)
}

/// finite values over the whole range of the number format
fn wide(mode: u32, seed: u32, n: usize) -> Vec<f32> {
    const SPECIAL: &[f32] = &[
        0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 10.0, 1e-3, -1e-3, 1e-10, 88.0, -88.0, 89.5, -104.0, 100.0, -100.0, 1e4, -1e4,
        1e10, -1e10, 1e30, -1e30, 1e-30, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-42, -1e-42, 16777216.0, 16777217.0, 0.99999994,
        1.0000001, 3.1415927, 1.5707964, 20.0, -20.0, 17.0, -17.0, 0.1, 0.2,
    ];
    (0..n)
        .map(|i| {
            let h = mix(((seed as u64) << 32) ^ (i as u64).wrapping_mul(0x9e37_79b9));
            let m = if mode == 4 { (h >> 60) as u32 % 4 } else { mode };
            match m {
                0 => SPECIAL[(h % SPECIAL.len() as u64) as usize],
                1 => {
                    let x = f32::from_bits((h >> 16) as u32);
                    if x.is_finite() {
                        x
                    } else {
                        f32::from_bits((h >> 16) as u32 & 0xbfff_ffff)
                    }
                }
                2 => {
                    // moderate magnitudes, log-uniform 2^-12..2^12
                    let e = ((h >> 20) % 24_000) as f64 / 1000.0 - 12.0;
                    let v = e.exp2() as f32;
                    if h & 1 == 0 {
                        v
                    } else {
                        -v
                    }
                }
                _ => ((h % 41) as i64 - 20) as f32,
            }
        })
        .collect()
}

/// value and allowed absolute error beyond relative 1e-5; None where the function has no real value
fn truth(op: &Op, a: f64, b: f64) -> Option<(f64, f64)> {
    use Op::*;
    let tiny = 2e-38;
    let r = match op {
        Neg(_) => (-a, 0.0),
        Add(_) => (a + b, 0.0),
        Sub(_) => (a - b, 0.0),
        Mul(_) => (a * b, tiny),
        Div(_) => (a / b, tiny),
        AddC(k, _) => (a + *k as f64, 0.0),
        SubCL(k, _) => (*k as f64 - a, 0.0),
        SubCR(k, _) => (a - *k as f64, 0.0),
        MulC(k, _) => (a * *k as f64, tiny),
        DivCL(k, _) => (*k as f64 / a, tiny),
        DivCR(k, _) => (a / *k as f64, tiny),
        Pow(_) => (a.powf(b), tiny),
        PowCL(k) => ((*k as f64).powf(a), tiny),
        Powf(k) => (a.powf(*k as f64), tiny),
        Powi(n) => {
            if n.unsigned_abs() > 40 && a.abs() != 1.0 && a != 0.0 && ((a.abs().ln() * *n as f64).abs() < 200.0) {
                // rounding of the repeated products is not bounded usefully here
                if n.unsigned_abs() > 4000 {
                    return None;
                }
            }
            (a.powi(*n), tiny)
        }
        Sqrt => (a.sqrt(), tiny),
        Abs => (a.abs(), 0.0),
        Sin => (a.sin(), 1e-6),
        Cos => (a.cos(), 1e-6),
        Tan => (a.tan(), 1e-6),
        Exp => (a.exp(), tiny),
        Ln => (a.ln(), 1e-6),
        Tanh => (a.tanh(), 1e-6),
        Sigmoid => (if a >= 0.0 { 1.0 / (1.0 + (-a).exp()) } else { a.exp() / (1.0 + a.exp()) }, 1e-6),
        Softplus => (a.max(0.0) + (-a.abs()).exp().ln_1p(), 1e-6),
        Relu => (a.max(0.0), 0.0),
        Lrelu => (if a > 0.0 { a } else { a * 0.01f32 as f64 }, tiny),
        Prelu(k) => (if a > 0.0 { a } else { a * *k as f64 }, tiny),
        Elu(k) => (if a > 0.0 { a } else { *k as f64 * a.exp_m1() }, 1e-6 * k.abs() as f64 + tiny),
        _ => return None,
    };
    if r.0.is_finite() {
        Some(r)
    } else {
        None
    }
}

fn wide_fwd(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Const, Kind::Unary, Kind::Binary][s.weighted(&[2, 4, 3])];
    let mut call = gen::call(&mut s, kind, Lim { depth: 3, vol: 64, batch: 4 }, false);
    let mode = s.weighted(&[3, 3, 3, 1, 4]) as u32;
    // constants over the whole range too
    let k = wide(s.weighted(&[3, 3, 3, 1]) as u32, s.word(), 1)[0];
    let big = *s.pick(&[2i32, 3, -1, 0, 7, -4, 13, -31, 100, -100, 1000, -1001, i32::MAX, i32::MIN, i32::MIN + 1]);
    match &mut call.op {
        Op::AddC(c, _) | Op::SubCL(c, _) | Op::SubCR(c, _) | Op::MulC(c, _) | Op::DivCL(c, _) | Op::DivCR(c, _) => *c = k,
        Op::PowCL(c) | Op::Powf(c) | Op::Prelu(c) | Op::Elu(c) => *c = k,
        Op::Powi(n) => *n = big,
        _ => {}
    }
    let data: Vec<Vec<f32>> = call.args.iter().map(|(sh, _)| wide(mode, s.word(), sh.size())).collect();
    let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
    let out = call.op.shapes(&shapes.iter().collect::<Vec<_>>()).unwrap().pop().unwrap();
    ctx.desc(|| {
        format!(
            "{:?} on {} with {:?}",
            call.op,
            shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(", "),
            data.iter().map(|d| d.iter().take(4).copied().collect::<Vec<_>>()).collect::<Vec<_>>()
        )
    });
    ctx.label(call.op.name());
    ctx.nontrivial();
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = shapes.iter().zip(&data).map(|(sh, d)| mk(&dev, sh, d)).collect();
    let y = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>()).pop().unwrap();
    check_shape("result", &y, &out)?;
    let got = y.to_vec();
    let vol = out.volume();
    let at = |i: usize, p: usize, b: usize| -> f64 {
        let sh = &shapes[i];
        let bb = if sh.batch == 1 { 0 } else { b };
        data[i][bb * sh.volume() + if sh.is_scalar() { 0 } else { p }] as f64
    };
    for (i, &g) in got.iter().enumerate() {
        let a = at(0, i % vol, i / vol);
        let b = if shapes.len() > 1 { at(1, i % vol, i / vol) } else { 0.0 };
        let Some((v, abs)) = truth(&call.op, a, b) else { continue };
        let rel = match call.op {
            Op::Powi(n) => 1e-5 + n.unsigned_abs().min(5000) as f64 * 2e-7,
            _ => 1e-5,
        };
        let tol = rel * v.abs() + abs;
        let max = f32::MAX as f64;
        let ok = if v.abs() > max * (1.0 - rel) {
            // out of range: infinity (or the largest number) of the right sign
            let slack = max * (1.0 - 3.0 * rel);
            g as f64 * v.signum() >= slack && !g.is_nan() && (v.abs() < max * (1.0 + 3.0 * rel) || g.is_infinite())
        } else {
            (g as f64 - v).abs() <= tol
        };
        if !ok {
            return Err(format!("{:?} of {:?} and {:?}: element {} is {:?}, expected {:?}", call.op, a as f32, b as f32, i, g, v));
        }
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| fwd(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Const, Kind::Unary, Kind::Binary], false)
}

fn main() {
    run_main(Check {
        id: "C01",
        rule: "forward: one elementwise call (constant, unary, or two-operand, every operand order and ownership) on generated shapes (depth 0..8, extents up to 70000, minibatch 1..70, repeated minibatch, scalar operands) and values, every element of the result against an f64 evaluation with a running bound on 32-bit rounding; non-trivial when more than one element is involved. wide: the same calls on values over the whole finite range (random bit patterns, subnormals, huge, zeros, integers) against f64 with overflow mapped to infinity; every case counts. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &["elements where the mathematical value is undefined or infinite (division by zero, logarithm of a non-positive number) are not compared"],
        subs: vec![
            Sub { name: "forward", head: 24, steps: (0, 0), step_len: 0, quick: 420_000, thorough: 16_800_000, run: fwd },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "wide", head: 26, steps: (0, 0), step_len: 0, quick: 560_000, thorough: 22_400_000, run: wide_fwd },
            Sub { name: "long", head: 30, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
