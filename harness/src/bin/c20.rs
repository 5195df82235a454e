use harness::*;

const GARBAGE: &[f32] = &[f32::NAN, 1e30, -7.5e-3, f32::INFINITY];

/// NaN positions must agree, everything else bit for bit
fn alike(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()) {
        return Ok(());
    }
    check_bits(what, got, want)
}

fn soil<'d>(s: &mut Src, dev: &'d Device<'d>) {
    let g = *s.pick(GARBAGE);
    dirty(dev, 1024, 4, g);
    if s.bool() {
        let g = *s.pick(GARBAGE);
        dirty(dev, 256, 2, g);
    }
}

/// one call, forward and backward
fn call(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let l = [Lim { depth: 4, vol: 24, batch: 3 }, Lim::SMALL, Lim::MID][s.weighted(&[4, 3, 1])];
    let call = gen::call(&mut s, kind, l, false);
    let data = call.data();
    let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
    let refs: Vec<&Sh> = shapes.iter().collect();
    let outs = call.op.shapes(&refs).unwrap();
    let cots: Vec<Vec<f32>> = outs.iter().map(|o| cotangent(&mut s, o.size())).collect();
    let prior: Vec<Vec<f32>> = shapes.iter().map(|o| cotangent(&mut s, o.size())).collect();
    ctx.desc(|| call.show());
    ctx.label(call.op.name());
    ctx.nontrivial();
    let clean = D::Naive::new();
    let one = |dev: &Device<'static>, ctx_s: &mut Src, st: Option<&Shared>| -> Result<(Vec<Vec<f32>>, Vec<Vec<f32>>), String> {
        // SAFETY: everything on the device is dropped inside this closure
        let dev: &'static Device<'static> = unsafe { &*(dev as *const Device<'static>) };
        if st.is_some() {
            soil(ctx_s, dev);
        }
        if let Some(st) = st {
            with_state(st, |x| x.paranoid = true);
        }
        let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(dev, sh, d)).collect();
        let ys = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
        let v: Vec<Vec<f32>> = ys.iter().map(|y| y.to_vec()).collect();
        for (i, (x, d)) in xs.iter().zip(&data).enumerate() {
            check_bits(&format!("operand {} after the call", i), &x.to_vec(), d)?;
        }
        // and again, with the first results still around
        let again = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
        for (a, b) in again.iter().zip(&v) {
            alike("the same call repeated", &a.to_vec(), b)?;
        }
        for (a, b) in ys.iter().zip(&v) {
            alike("earlier result after the call was repeated", &a.to_vec(), b)?;
        }
        drop((again, ys));
        let g = graph_vjp_on(dev, &call.op, &shapes, &data, &prior, &cots, Share::Owned);
        for (i, (x, d)) in xs.iter().zip(&data).enumerate() {
            check_bits(&format!("operand {} after the backward call", i), &x.to_vec(), d)?;
        }
        if let Some(st) = st {
            errors(st)?;
        }
        Ok((v, g))
    };
    let (v0, g0) = one(&clean, &mut s, None)?;
    for r in 0..2 {
        let (dev, st) = rec_device(true);
        let (v, g) = one(&dev, &mut s, Some(&st))?;
        for (a, b) in v.iter().zip(&v0) {
            alike(&format!("result in used memory (variation {})", r), a, b)?;
        }
        for (a, b) in g.iter().zip(&g0) {
            alike(&format!("gradient in used memory (variation {})", r), a, b)?;
        }
        drop(dev);
        settled(&st)?;
    }
    Ok(())
}

/// calls that resemble each other, in turn and in any order on one device in used memory, against
/// each of them alone in fresh memory
fn row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let (w, n, seed) = (s.word() as u64, s.range(2, 6) as usize, s.word() as u64);
    let (keep, turns) = (s.bool(), s.range(4, 14) as u64);
    let l = [Lim { depth: 3, vol: 12, batch: 3 }, Lim { depth: 4, vol: 48, batch: 4 }][s.index(2)];
    let base = gen::call(&mut s, kind, l, false);
    let all = gen::relatives(&base, w, n);
    ctx.desc(|| all.iter().map(|c| c.show()).collect::<Vec<_>>().join("; "));
    ctx.label(base.op.name());
    if all.len() > 1 {
        ctx.nontrivial();
    }
    let work = |dev: &Device<'static>, i: usize| -> Vec<Vec<f32>> {
        // SAFETY: everything made here is dropped here
        let dev: &'static Device<'static> = unsafe { &*(dev as *const Device<'static>) };
        let c = &all[i];
        let data = c.data();
        let shapes: Vec<Sh> = c.args.iter().map(|a| a.0.clone()).collect();
        let xs: Vec<Tensor> = c.args.iter().zip(&data).map(|((sh, _), d)| mk(dev, sh, d)).collect();
        let ys = apply_tensor(&c.op, &xs.iter().collect::<Vec<_>>());
        let mut out: Vec<Vec<f32>> = ys.iter().map(|y| y.to_vec()).collect();
        let word = |k: usize, j: usize| ((pvcore::src::mix(seed ^ (i as u64) << 40 ^ (k as u64) << 20 ^ j as u64) >> 20) % 7) as f32 - 3.0;
        let cots: Vec<Vec<f32>> = out.iter().enumerate().map(|(k, o)| (0..o.len()).map(|j| word(k, j)).collect()).collect();
        let prior: Vec<Vec<f32>> = shapes.iter().enumerate().map(|(k, o)| (0..o.size()).map(|j| word(k + 99, j)).collect()).collect();
        out.extend(graph_vjp_on(dev, &c.op, &shapes, &data, &prior, &cots, Share::Owned));
        out
    };
    let want: Vec<Vec<Vec<f32>>> = (0..all.len()).map(|i| work(&D::Naive::new(), i)).collect();
    let (dev, st) = rec_device(true);
    {
        let dev: &'static Device<'static> = unsafe { &*(&dev as *const Device<'static>) };
        soil(&mut s, dev);
        let mut kept: Vec<Tensor> = Vec::new();
        for t in 0..turns {
            let i = if (t as usize) < all.len() { t as usize } else { (pvcore::src::mix(seed ^ t << 33) >> 30) as usize % all.len() };
            let got = work(dev, i);
            for (k, (a, b)) in got.iter().zip(&want[i]).enumerate() {
                alike(&format!("turn {}: result {} of {}", t, k, all[i].show()), a, b)?;
            }
            if keep {
                let c = &all[i];
                kept.push(mk(dev, &c.args[0].0, &c.data()[0]));
            }
        }
        drop(kept);
        errors(&st)?;
    }
    drop(dev);
    settled(&st)
}

/// the results for operands as they are now, and the gradients of the operands
fn results<'d>(dev: &'d Device<'d>, op: &Op, xs: &[Tensor<'d>], cots: &[Vec<f32>], how: u64) -> Vec<Vec<f32>> {
    if how == 0 {
        return apply_tensor(op, &xs.iter().collect::<Vec<_>>()).iter().map(|y| y.to_vec()).collect();
    }
    let mut out = vec![];
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let ys = apply_node(op, &ns.iter().collect::<Vec<_>>());
    let mut args: Vec<&Node> = ys.iter().collect();
    args.extend(ns.iter());
    let mut c = cots.to_vec();
    c.extend(xs.iter().map(|x| vec![0.0; x.shape().size() as usize]));
    let root = Node::create(Seed { device: dev, cots: c }, &args).pop().unwrap();
    root.backward();
    out.extend(ys.iter().map(|y| y.to_vec()));
    out.extend(ns.iter().map(|n| n.inner_gradient().to_vec()));
    out
}

/// operands written in place between calls, and memory handed on to new operands of the same
/// extents: every call sees what is there now
fn rewritten(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let rounds = s.range(2, 5);
    let w = s.word() as u64;
    let only = mix(w ^ 99) % 4;
    let way = |r: u32| if only < 3 { only } else { mix(w ^ (r as u64) << 40) % 2 };
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let l = [Lim { depth: 3, vol: 12, batch: 40 }, Lim { depth: 4, vol: 60, batch: 20 }, Lim::SMALL, Lim::MID][s.weighted(&[5, 3, 2, 1])];
    let many = if s.chance(1, 6) { s.range(10, 40) } else { 0 };
    let mut call = gen::call(&mut s, kind, l, true);
    if many > 0 {
        // many samples in one operand or all of them, where that is well-formed
        let mut c = call.clone();
        let one = s.bool();
        for (i, a) in c.args.iter_mut().enumerate() {
            a.0 = a.0.with_batch(if one && i > 0 { 1 } else { many });
        }
        if c.total() < 20_000 && c.op.shapes(&c.args.iter().map(|a| &a.0).collect::<Vec<_>>()).is_some() {
            call = c;
        }
    }
    let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
    let outs = call.op.shapes(&shapes.iter().collect::<Vec<_>>()).unwrap();
    let cots: Vec<Vec<f32>> = outs.iter().map(|o| cotangent(&mut s, o.size())).collect();
    ctx.desc(|| format!("{}, {} rounds", call.show(), rounds));
    ctx.label(call.op.name());
    ctx.nontrivial();
    let dev = D::Naive::new();
    let mut data = call.data();
    let mut xs: Vec<Tensor> = shapes.iter().zip(&data).map(|(sh, d)| mk(&dev, sh, d)).collect();
    results(&dev, &call.op, &xs, &cots, way(0));
    for r in 1..rounds {
        let z = mix(w ^ (r as u64) << 8);
        let mut did = vec![];
        for i in 0..xs.len() {
            let h = mix(z ^ i as u64);
            if h % 4 == 0 && i + 1 != xs.len() {
                continue;
            }
            // other numbers of the same kind
            let v = Vals { seed: call.args[i].1.seed.wrapping_add(r * 1_000_003), ..call.args[i].1.clone() };
            data[i] = if h % 8 < 7 { v.fill(shapes[i].size()) } else { call.args[i].1.fill(shapes[i].size()) };
            match h >> 8 & 3 {
                0 | 1 => dev.reset_tensor_by_slice(&mut xs[i], &data[i]),
                2 => {
                    let t = mk(&dev, &shapes[i], &data[i]);
                    dev.reset_tensor_by_tensor(&mut xs[i], &t)
                }
                _ => {
                    // the memory goes to a new tensor
                    let sh = shapes[i].clone();
                    xs[i] = mk(&dev, &Sh::new(&[1], 1), &[0.0]);
                    xs[i] = mk(&dev, &sh, &data[i]);
                }
            }
            did.push(i);
        }
        ctx.desc(|| format!("operands {:?} written", did));
        let got = results(&dev, &call.op, &xs, &cots, way(r));
        let other = D::Naive::new();
        let ts: Vec<Tensor> = shapes.iter().zip(&data).map(|(sh, d)| mk(&other, sh, d)).collect();
        let want = results(&other, &call.op, &ts, &cots, way(r));
        for (k, (a, b)) in got.iter().zip(&want).enumerate() {
            let what = if k < outs.len() { format!("result {}", k) } else { format!("gradient of operand {}", k - outs.len()) };
            alike(&format!("{} in round {}, compared with operands elsewhere", what, r), a, b)?;
        }
        for (i, (x, d)) in xs.iter().zip(&data).enumerate() {
            check_bits(&format!("operand {} after round {}", i, r), &x.to_vec(), d)?;
        }
    }
    Ok(())
}

/// a few calls made over and over on one device, hundreds of times, among tensors that come and go:
/// the thousandth time gives what the first gave on a device of its own
fn soak(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let rounds = if s.chance(1, 4) { s.range(80, 1500) } else { s.range(4, 80) };
    let w = s.word() as u64;
    let ways = s.below(3) as u64; // eager, backward, both
    let most = *s.pick(&[4usize, 30, 300]);
    let recreate = s.chance(1, 2);
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    struct One {
        call: gen::Call,
        data: Vec<Vec<f32>>,
        cots: Vec<Vec<f32>>,
        want: [Vec<Vec<f32>>; 2],
    }
    let mut all: Vec<One> = vec![];
    for st in &case.steps {
        let mut s = Src::new(st);
        let kind = kinds[s.index(kinds.len())];
        let l = [Lim { depth: 3, vol: 12, batch: 3 }, Lim { depth: 4, vol: 24, batch: 3 }, Lim::SMALL][s.weighted(&[5, 3, 1])];
        let call = gen::call(&mut s, kind, l, false);
        if call.total() > 600 {
            continue;
        }
        let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
        let outs = call.op.shapes(&shapes.iter().collect::<Vec<_>>()).unwrap();
        if outs.iter().map(|o| o.size()).sum::<usize>() > 2000 {
            continue;
        }
        let data = call.data();
        let cots: Vec<Vec<f32>> = outs.iter().map(|o| cotangent(&mut s, o.size())).collect();
        let want = [0u64, 1].map(|how| {
            let d = D::Naive::new();
            let xs: Vec<Tensor> = shapes.iter().zip(&data).map(|(sh, d2)| mk(&d, sh, d2)).collect();
            results(&d, &call.op, &xs, &cots, how)
        });
        ctx.desc(|| call.show());
        ctx.label(call.op.name());
        all.push(One { call, data, cots, want });
    }
    if all.is_empty() {
        return Ok(());
    }
    ctx.desc(|| format!("{} rounds, way {}, up to {} other tensors, new operands each time {}, seed {}", rounds, ways, most, recreate, w));
    if rounds >= 20 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let make = |o: &One| -> Vec<Tensor> { o.call.args.iter().zip(&o.data).map(|((sh, _), d)| mk(&dev, sh, d)).collect() };
    let mut ops: Vec<Vec<Tensor>> = all.iter().map(make).collect();
    let mut held: Vec<(Tensor, f32)> = vec![];
    let mut z = w;
    for r in 0..rounds {
        z = mix(z);
        let k = (z >> 8) as usize % all.len();
        let o = &all[k];
        if recreate {
            ops[k] = make(o);
        }
        let how = if ways < 2 { ways } else { z >> 40 & 1 };
        let got = results(&dev, &o.call.op, &ops[k], &o.cots, how);
        for (i, (a, b)) in got.iter().zip(&o.want[how as usize]).enumerate() {
            alike(&format!("round {} of {}: number {} of {}", r, rounds, i, o.call.op.name()), a, b)?;
        }
        for (i, (x, d)) in ops[k].iter().zip(&o.data).enumerate() {
            check_bits(&format!("operand {} after round {}", i, r), &x.to_vec(), d)?;
        }
        // others come and go
        for j in 0..mix(z) % 4 {
            let h = mix(z ^ j << 32);
            if h % 5 < 2 && !held.is_empty() {
                let (t, v) = held.swap_remove((h >> 8) as usize % held.len());
                if t.to_vec().iter().any(|x| x.to_bits() != v.to_bits()) {
                    return Err(format!("round {}: a tensor that was not involved changed", r));
                }
            } else if held.len() < most {
                let v = (h >> 16) as u16 as f32;
                held.push((dev.new_tensor_by_constant(Shape::new(&[(h >> 40) as u32 % 70 + 1], 1), v), v));
            }
        }
    }
    for (t, v) in &held {
        if t.to_vec().iter().any(|x| x.to_bits() != v.to_bits()) {
            return Err("at the end: a tensor that was not involved changed".into());
        }
    }
    Ok(())
}

fn values_and_gradients<'d>(dev: &'d Device<'d>, p: &Prog, lazy: bool) -> Vec<Vec<f32>> {
    let mut out: Vec<Vec<f32>> = vec![];
    if lazy {
        let v = build_nodes(dev, p);
        let root = v.last().unwrap();
        root.backward();
        let cone = p.cone(&[v.len() - 1]);
        for (i, n) in v.iter().enumerate() {
            out.push(n.to_vec());
            if i < p.leaves.len() && cone[i] {
                out.push(n.inner_gradient().to_vec());
            }
        }
    } else {
        for t in run_tensors(dev, p) {
            out.push(t.to_vec());
        }
    }
    out
}

/// a whole computation on fresh memory, in used memory, and again later
fn program(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &Opts { max_size: 200, max_err: 1e-2, smooth: true, ..Opts::DEFAULT });
    let p = &b.prog;
    let mut s = Src::new(&case.head[24..]);
    let lazy = s.chance(2, 3);
    ctx.desc(|| p.show());
    if p.steps.len() >= 2 {
        ctx.nontrivial();
    }
    let clean = D::Naive::new();
    let want = values_and_gradients(&clean, p, lazy);
    let cmp = |what: &str, got: &[Vec<f32>]| -> Result<(), String> {
        for (i, (a, b)) in got.iter().zip(&want).enumerate() {
            alike(&format!("{}, number {}", what, i), a, b)?;
        }
        Ok(())
    };
    cmp("repeated on the same device", &values_and_gradients(&clean, p, lazy))?;
    let used = D::Naive::new();
    soil(&mut s, &used);
    cmp("in used memory", &values_and_gradients(&used, p, lazy))?;
    {
        // others at work in between
        let keep: Vec<Tensor> = (0..s.below(6)).map(|i| used.new_tensor_by_constant(Shape::new(&[i * 40 + 1], 1), f32::NAN)).collect();
        soil(&mut s, &used);
        let other: Vec<Tensor> = run_tensors(&used, p);
        drop(other);
        cmp("repeated among other work", &values_and_gradients(&used, p, lazy))?;
        for k in &keep {
            if !k.to_vec().iter().all(|x| x.is_nan()) {
                return Err("a tensor that was not involved changed".into());
            }
        }
    }
    let (dev, st) = rec_device(true);
    with_state(&st, |x| x.paranoid = true);
    soil(&mut s, &dev);
    cmp("between guard zones", &values_and_gradients(&dev, p, lazy))?;
    errors(&st)
}

fn main() {
    run_main(Check {
        id: "C20",
        rule: "call: one generated call of any operation, its result and its gradients (with earlier gradient content), on fresh memory and twice on a guarded backend whose recycled buffers hold NaN, infinities or large values: equal bits, guard zones around every buffer whole and operands bit for bit unchanged after every single kernel call; every case counts. program: random programs, eager or with backward pass, on fresh, used, busy and guarded devices; non-trivial with two operations. rewritten: one call repeated on operands that are written in place, or replaced by new ones in the same memory, between the repetitions, against the same call on operands of another device; every case counts. row: a call and up to six others that resemble it, in any order, forward and backward, in used memory, each against itself alone in fresh memory. soak: up to five calls, eager or with gradients, made up to 1500 times in any order on one device among up to 300 tensors that come and go, every result against the same call on a device of its own; non-trivial from twenty rounds on.",
        assumptions: &["NaN payloads are not compared"],
        subs: vec![
            Sub { name: "call", head: 70, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_500_000, run: call },
            Sub { name: "rewritten", head: 70, steps: (0, 0), step_len: 0, quick: 60_000, thorough: 1_500_000, run: rewritten },
            Sub { name: "row", head: 80, steps: (0, 0), step_len: 0, quick: 20_000, thorough: 800_000, run: row },
            Sub { name: "soak", head: 12, steps: (1, 5), step_len: 70, quick: 2_000, thorough: 60_000, run: soak },
            Sub { name: "program", head: 80, steps: (1, 14), step_len: 36, quick: 15_000, thorough: 500_000, run: program },
        ],
    })
}
