use harness::*;

fn graph(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = if s.weighted(&[5, 4]) == 0 { Kind::Reduce } else { Kind::Softmax };
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, true);
    if let Op::SoftmaxCE(d) = call.op {
        // the target is a distribution along the dimension, exactly
        let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
        let mut data = call.data();
        data[1] = distribution(&mut s, &shapes[1], d);
        ctx.desc(|| call.show());
        return gradient_data(&mut s, &call.op, &shapes, &data, ctx);
    }
    gradient_call(&mut s, &call, ctx)
}

/// lines of eighths that sum to exactly one
fn distribution(s: &mut Src, sh: &Sh, d: u32) -> Vec<f32> {
    let seed = s.word();
    let n = sh.d(d) as usize;
    let lines = sh.with_dim(d, 1);
    let mut out = vec![0.0f32; sh.size()];
    for b in 0..sh.batch as usize {
        for p in 0..lines.volume() {
            let ix = lines.unflat(p);
            let h0 = mix(((seed as u64) << 32) ^ (b * lines.volume() + p) as u64);
            let units = if h0 % 3 == 0 { 1 } else { 8 };
            for k in 0..units {
                let mut j = ix;
                j[d as usize] = mix(h0.wrapping_add(k)) as usize % n;
                out[b * sh.volume() + sh.flat(&j)] += 1.0 / units as f32;
            }
        }
    }
    out
}

/// maximum and minimum over lines with ties
fn ties(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let sh = gen::shape(&mut s, l);
    let d = gen::dim(&mut s, &sh);
    let k = s.range(1, 4);
    let x = gen::vals(&mut s, Mode::Ties(k)).fill(sh.size());
    let max = s.bool();
    let near = s.chance(1, 3);
    let base = *s.pick(&[1.0f32, 2.0, 1e30, -1.0, 3e-39, -7.5e5, f32::from_bits(2.0f32.to_bits() - 2)]);
    // neighbouring numbers instead of distant ones
    let x: Vec<f32> = if near { x.iter().map(|v| f32::from_bits((base.to_bits() as i64 + *v as i64) as u32)).collect() } else { x };
    let lines = sh.with_dim(d, 1);
    let cot = Vals { mode: Mode::Ints(6), seed: s.word(), exp: 0 }.fill(lines.size());
    let prior = Vals { mode: Mode::Ints(5), seed: s.word(), exp: 0 }.fill(sh.size());
    ctx.desc(|| format!("{} along {} of {} with {} distinct values{}", if max { "max" } else { "min" }, d, sh.show(), k, if near { " next to each other" } else { "" }));
    if sh.d(d) > 1 {
        ctx.nontrivial();
    }
    let op = if max { Op::Max(d) } else { Op::Min(d) };
    let g = graph_vjp(&op, &[sh.clone()], &[x.clone()], &[prior.clone()], &[cot.clone()], Share::Owned).pop().unwrap();
    let n = sh.d(d) as usize;
    for b in 0..sh.batch as usize {
        for p in 0..lines.volume() {
            let ix = lines.unflat(p);
            let pos: Vec<usize> = (0..n)
                .map(|i| {
                    let mut j = ix;
                    j[d as usize] = i;
                    b * sh.volume() + sh.flat(&j)
                })
                .collect();
            let ext = pos.iter().map(|&q| x[q]).fold(if max { f32::NEG_INFINITY } else { f32::INFINITY }, |a, v| if max { a.max(v) } else { a.min(v) });
            let mut total = 0.0f64;
            for &q in &pos {
                let got = g[q] as f64 - prior[q] as f64;
                if x[q] != ext && got != 0.0 {
                    return Err(format!("element {} is not extreme but receives {}", q, got));
                }
                total += got;
            }
            let want = cot[b * lines.volume() + p] as f64;
            // shares may be fractions of the incoming gradient
            if (total - want).abs() > 1e-5 * (1.0 + want.abs()) {
                return Err(format!("line {} of sample {} receives {} in total, expected {}", p, b, total, want));
            }
        }
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| graph(case, ctx))
}

/// the same with an extent past 16 bits
fn long_ties(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| ties(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Reduce, Kind::Softmax], true)
}

fn main() {
    run_main(Check {
        id: "C08",
        rule: "graph: one reduction or softmax-family operation in a graph whose root injects an arbitrary cotangent and arbitrary earlier gradient content; operand gradients against the f64 adjoint with a rounding bound (exact for integers); ties: maximum and minimum over lines with many equal values, the total goes to elements attaining the extreme. Non-trivial when the cotangent is not all zero (ties: lines longer than one). row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &["the target of softmax cross entropy is a distribution along the dimension"],
        subs: vec![
            Sub { name: "graph", head: 44, steps: (0, 0), step_len: 0, quick: 250_000, thorough: 10_000_000, run: graph },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "ties", head: 24, steps: (0, 0), step_len: 0, quick: 60_000, thorough: 2_400_000, run: ties },
            Sub { name: "long", head: 50, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
            Sub { name: "long_ties", head: 30, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long_ties },
        ],
    })
}
