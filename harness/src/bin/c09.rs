use harness::*;

fn graph(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Matrix, Kind::Move, Kind::Batch][s.weighted(&[3, 5, 4])];
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, true);
    gradient_call(&mut s, &call, ctx)
}

/// one value used as several operands of concat, and ids that repeat
fn shared(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = gen::shape(&mut s, Lim { depth: 4, vol: 60, batch: 4 });
    let d = gen::dim(&mut s, &sh);
    let n = s.range(2, 5) as usize;
    let m = s.range(1, 3) as usize;
    let data: Vec<Vec<f32>> = (0..m).map(|_| gen::ints(&mut s).fill(sh.size())).collect();
    let which: Vec<usize> = (0..n).map(|_| s.index(m)).collect();
    let op = if s.bool() { Op::Concat(d) } else { Op::BatchConcat };
    ctx.desc(|| format!("{:?} of {:?} where every value is {}", op, which, sh.show()));
    ctx.nontrivial();
    let mut t = Tape::new();
    let rts: Vec<Rt> = data.iter().map(|x| Rt::from_data(&mut t, &sh, x)).collect();
    let y = op.eval(&mut t, &which.iter().map(|&i| &rts[i]).collect::<Vec<_>>()).pop().unwrap();
    let cot = cotangent(&mut s, y.id.len());
    let g = t.gradients(&y.id.iter().copied().zip(cot.iter().copied()).collect::<Vec<_>>());
    let dev = D::Naive::new();
    let xs: Vec<Node> = data.iter().map(|x| Node::from(mk(&dev, &sh, x))).collect();
    let out = apply_node(&op, &which.iter().map(|&i| &xs[i]).collect::<Vec<_>>()).pop().unwrap();
    let root = Node::create(Seed { device: &dev, cots: vec![cot] }, &[&out]).pop().unwrap();
    root.backward();
    for i in 0..m {
        if which.contains(&i) {
            check_grad("gradient of a value used several times", &xs[i].inner_gradient().to_vec(), &g, &rts[i])?;
        }
    }
    Ok(())
}

/// the device's own backward functions
fn device(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = [Kind::Matrix, Kind::Move, Kind::Batch][s.weighted(&[3, 4, 4])];
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, true);
    let data = call.data();
    let mut t = Tape::new();
    let rts = leaves(&mut t, &call, &data);
    if !matches!(
        call.op,
        Op::Matmul(_) | Op::Transpose | Op::TriL(_) | Op::TriU(_) | Op::Slice(..) | Op::Pick(..) | Op::BatchSlice(..) | Op::BatchPick(..)
    ) {
        ctx.skip("no backward function of its own");
        return Ok(());
    }
    let out = call.op.eval(&mut t, &rts.iter().collect::<Vec<_>>()).pop().unwrap();
    if let Some(b) = t.bad {
        ctx.skip(b);
        return Ok(());
    }
    let cot = cotangent(&mut s, out.id.len());
    let prior: Vec<Vec<f32>> = rts.iter().map(|r| cotangent(&mut s, r.id.len())).collect();
    ctx.desc(|| call.show());
    ctx.label(call.op.name());
    ctx.nontrivial();
    let mut seeds: Vec<(u32, f32)> = out.id.iter().copied().zip(cot.iter().copied()).collect();
    for (r, p) in rts.iter().zip(&prior) {
        seeds.extend(r.id.iter().copied().zip(p.iter().copied()));
    }
    let g = t.gradients(&seeds);
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(&dev, sh, d)).collect();
    let y = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>()).pop().unwrap();
    let gy = mk(&dev, &out.sh, &cot);
    let mut gx: Vec<Tensor> = rts.iter().zip(&prior).map(|(r, p)| mk(&dev, &r.sh, p)).collect();
    match call.op.clone() {
        Op::Matmul(_) => {
            dev.matmul_bw_a(&xs[0], &xs[1], &y, &gy, &mut gx[0]);
            dev.matmul_bw_b(&xs[0], &xs[1], &y, &gy, &mut gx[1]);
        }
        Op::Transpose => dev.transpose_bw(&xs[0], &y, &gy, &mut gx[0]),
        Op::TriL(k) => dev.triangular_l_bw(&xs[0], &y, &gy, k, &mut gx[0]),
        Op::TriU(k) => dev.triangular_u_bw(&xs[0], &y, &gy, k, &mut gx[0]),
        Op::Slice(d, lo, _) => dev.slice_bw(&gy, d, lo, &mut gx[0]),
        Op::Pick(ids, d) => dev.pick_bw(&gy, &ids, d, &mut gx[0]),
        Op::BatchSlice(lo, _) => dev.batch_slice_bw(&gy, lo, &mut gx[0]),
        Op::BatchPick(ids) => dev.batch_pick_bw(&gy, &ids, &mut gx[0]),
        _ => {}
    }
    for i in 0..rts.len() {
        check_grad(&format!("gradient of operand {} by the device function of {}", i, call.op.name()), &gx[i].to_vec(), &g, &rts[i])?;
        check_bits("operand afterwards", &xs[i].to_vec(), &data[i])?;
    }
    check_bits("incoming gradient afterwards", &gy.to_vec(), &cot)
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| graph(case, ctx))
}

/// the same with an extent past 16 bits
fn long_device(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| device(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Matrix, Kind::Move, Kind::Batch], true)
}

fn main() {
    run_main(Check {
        id: "C09",
        rule: "graph: one matrix, movement or minibatch operation (all results of multi-output operations get their own cotangent, often zero for some) in a graph whose root injects cotangents and earlier gradient content; operand gradients against the f64 adjoint, exactly for integers; shared: one value used as several operands of a concatenation; device: the device's backward functions called directly. Non-trivial when the cotangent is not all zero. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &[],
        subs: vec![
            Sub { name: "graph", head: 60, steps: (0, 0), step_len: 0, quick: 250_000, thorough: 10_000_000, run: graph },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "shared", head: 40, steps: (0, 0), step_len: 0, quick: 60_000, thorough: 2_400_000, run: shared },
            Sub { name: "device", head: 60, steps: (0, 0), step_len: 0, quick: 100_000, thorough: 4_000_000, run: device },
            Sub { name: "long", head: 66, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
            Sub { name: "long_device", head: 66, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long_device },
        ],
    })
}
