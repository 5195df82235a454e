use harness::mutate::*;
use harness::*;

fn show(op: &Op, a: &[Sh]) -> String {
    format!("{:?} on {}", op, a.iter().map(|s| s.show()).collect::<Vec<_>>().join(", "))
}

fn judge(what: &str, got: Result<Vec<Sh>, String>, want: &Option<Vec<Sh>>) -> Result<(), String> {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(s), None) => Err(format!(
            "{}: accepted with result {}, although the operands are ill-formed",
            what,
            s.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")
        )),
        (Err(e), Some(_)) => Err(format!("{}: refused although well-formed: {}", what, e)),
        (Ok(s), Some(w)) => {
            if &s == w {
                Ok(())
            } else {
                let f = |x: &[Sh]| x.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ");
                Err(format!("{}: result {}, expected {}", what, f(&s), f(w)))
            }
        }
    }
}

fn call(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = [Lim::SMALL, Lim::MID][s.weighted(&[5, 1])];
    let (op, a, _) = mutated(&mut s, l);
    ctx.desc(|| show(&op, &a));
    let Some(want) = verdict(&op, &a) else {
        ctx.skip("not claimed");
        return Ok(());
    };
    ctx.label(format!("{} {}", op.name(), if want.is_some() { "accept" } else { "refuse" }));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = a.iter().map(|sh| dev.new_tensor_by_constant(to_shape(sh), 1.5)).collect();
    let r: Vec<&Tensor> = xs.iter().collect();
    let got = guarded(|| {
        let ys = apply_tensor(&op, &r);
        for y in &ys {
            if y.to_vec().len() != y.shape().size() as usize {
                panic!("result has another number of elements");
            }
        }
        ys.iter().map(|y| from_shape(y.shape())).collect::<Vec<_>>()
    });
    judge("tensor call", got, &want)?;
    if a.is_empty() {
        return Ok(());
    }
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let nr: Vec<&Node> = ns.iter().collect();
    let got = guarded(|| {
        let ys = apply_node(&op, &nr);
        let before: Vec<Sh> = ys.iter().map(|y| from_shape(y.shape())).collect();
        for (y, b) in ys.iter().zip(&before) {
            if y.to_vec().len() != b.size() {
                panic!("result has another number of elements");
            }
        }
        before
    });
    judge("graph call", got, &want)
}

/// the device's forward and backward functions check every tensor they are given
fn device(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let stranger = D::Naive::new();
    let l = Lim { depth: 3, vol: 30, batch: 3 };
    // shapes: a, b, y, gy, g; first a well-formed family, then maybe one change
    let fam = s.weighted(&[5, 4, 2, 1, 2, 1, 1, 1, 1, 1, 4]);
    let foreign = if s.chance(1, 5) { Some(s.index(5)) } else { None };
    let mut sh: Vec<Sh>;
    let dim = s.below(4);
    let lo;
    let ids: Vec<u32>;
    let which;
    let call: Op;
    match fam {
        1 | 3 => {
            let a = if fam == 1 { gen::shape(&mut s, l) } else { gen::matrix(&mut s, l) };
            let bb = gen::compat_batch(&mut s, a.batch, 3);
            let b = if fam == 1 { a.with_batch(bb) } else { Sh::new(&[a.d(1), s.range(1, 4)], bb) };
            call = if fam == 1 { Op::Add(0) } else { Op::Matmul(0) };
            let (a, b) = if s.bool() && fam == 1 { (b, a) } else { (a, b) };
            let y = call.shapes(&[&a, &b]).unwrap().pop().unwrap();
            which = s.index(if fam == 1 { BINARY.len() } else { 2 });
            let first = if fam == 1 { BINARY[which].1 } else { which == 0 };
            sh = vec![a.clone(), b.clone(), y.clone(), y, if first { a } else { b }];
            lo = 0;
            ids = vec![];
        }
        _ => {
            let mut a = gen::shape(&mut s, l);
            if fam == 4 {
                a = gen::matrix(&mut s, l);
            }
            if fam == 5 {
                let n = s.range(1, 4);
                a = Sh::new(&[n, n], a.batch);
            }
            if fam == 8 || fam == 9 {
                a = a.with_batch(s.range(1, 4));
            }
            ids = match fam {
                7 => gen::pick_ids(&mut s, &a, dim, 3),
                9 => (0..s.range(1, 4)).map(|_| s.below(a.batch)).collect(),
                _ => vec![],
            };
            lo = if fam == 6 { s.below(a.d(dim)) } else { s.below(a.batch) };
            call = match fam {
                2 => Op::Max(dim),
                4 => Op::Transpose,
                5 => Op::TriL(1),
                6 => Op::Slice(dim, lo, s.range(lo + 1, a.d(dim))),
                7 => Op::Pick(ids.clone(), dim),
                8 => Op::BatchSlice(lo, s.range(lo + 1, a.batch)),
                9 => Op::BatchPick(ids.clone()),
                _ => Op::Neg(0),
            };
            let y = call.shapes(&[&a]).unwrap().pop().unwrap();
            which = s.index(UNARY.len());
            sh = vec![a.clone(), a.clone(), y.clone(), y, a];
        }
    }
    let uses_x = !(6..=9).contains(&fam);
    match s.below(8) {
        0 | 1 => {}
        2..=4 => {
            let i = s.index(5);
            sh[i] = other_shape(&mut s, &sh[i]);
        }
        // two that belong together change alike
        5 | 6 => {
            sh[2] = other_shape(&mut s, &sh[2]);
            sh[3] = sh[2].clone();
        }
        _ => {
            let i = s.index(2);
            sh[i] = other_shape(&mut s, &sh[i]);
            sh[4] = sh[i].clone();
        }
    }
    let ts: Vec<Tensor> = sh
        .iter()
        .enumerate()
        .map(|(i, x)| (if foreign == Some(i) { &stranger } else { &dev }).new_tensor_by_constant(to_shape(x), 0.5))
        .collect();
    let mut it = ts.into_iter();
    let (a, b, y, gy, mut g) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    let dev_ref = &dev;
    let mut two = false;
    // the same call, evaluated once; and what the rule says
    let (name, ok, got): (String, bool, Result<(), String>) = match fam {
        1 => {
            two = true;
            let (n, first, f) = BINARY[which];
            let ok = sh[if first { 0 } else { 1 }] == sh[4] && sh[2] == sh[3] && pvcore::ops::elementwise(&sh[0], &sh[1]).as_ref() == Some(&sh[2]);
            (n.into(), ok, guarded(|| f(dev_ref, &a, &b, &y, &gy, &mut g)))
        }
        3 => {
            two = true;
            let ok = sh[which] == sh[4] && sh[2] == sh[3] && call.shapes(&[&sh[0], &sh[1]]) == Some(vec![sh[2].clone()]);
            (
                "matmul_bw".into(),
                ok,
                guarded(|| {
                    if which == 0 {
                        dev_ref.matmul_bw_a(&a, &b, &y, &gy, &mut g)
                    } else {
                        dev_ref.matmul_bw_b(&a, &b, &y, &gy, &mut g)
                    }
                }),
            )
        }
        2 | 4 | 5 => {
            let ok = sh[0] == sh[4] && sh[2] == sh[3] && call.shapes(&[&sh[0]]) == Some(vec![sh[2].clone()]);
            let alt = s.bool();
            // triangular gradients of non-square values never arise; only equal shapes are asked for
            if fam == 5 && !(sh[0].is_matrix() && sh[0].d(0) == sh[0].d(1)) {
                ctx.skip("not claimed");
                return Ok(());
            }
            (
                format!("{}_bw", call.name()),
                ok,
                guarded(|| match (fam, alt) {
                    (2, false) => dev_ref.max_bw(&a, &y, &gy, dim, &mut g),
                    (2, true) => dev_ref.min_bw(&a, &y, &gy, dim, &mut g),
                    (4, _) => dev_ref.transpose_bw(&a, &y, &gy, &mut g),
                    (_, false) => dev_ref.triangular_l_bw(&a, &y, &gy, 1, &mut g),
                    _ => dev_ref.triangular_u_bw(&a, &y, &gy, 1, &mut g),
                }),
            )
        }
        6..=9 => {
            let back = match fam {
                6 => Op::Slice(dim, lo, lo + sh[3].d(dim)),
                7 => Op::Pick(ids.clone(), dim),
                8 => Op::BatchSlice(lo, lo + sh[3].batch),
                _ => Op::BatchPick(ids.clone()),
            };
            let ok = back.shapes(&[&sh[4]]) == Some(vec![sh[3].clone()]);
            (
                format!("{}_bw", call.name()),
                ok,
                guarded(|| match fam {
                    6 => dev_ref.slice_bw(&gy, dim, lo, &mut g),
                    7 => dev_ref.pick_bw(&gy, &ids, dim, &mut g),
                    8 => dev_ref.batch_slice_bw(&gy, lo, &mut g),
                    _ => dev_ref.batch_pick_bw(&gy, &ids, &mut g),
                }),
            )
        }
        10 => {
            // in place: b is the operand, g the target
            two = true;
            let ok = sh[1].dims == sh[4].dims && sh[1].compat(&sh[4]);
            if foreign == Some(0) || foreign == Some(2) || foreign == Some(3) {
                ctx.skip("not involved");
                return Ok(());
            }
            let how = s.below(6);
            let r = guarded(|| match how {
                0 => dev_ref.add_assign(&b, &mut g),
                1 => dev_ref.sub_assign(&b, &mut g),
                2 => g += &b,
                3 => g -= &b,
                4 => g += dev_ref.copy_tensor(&b),
                _ => g -= dev_ref.copy_tensor(&b),
            });
            // copying an operand brings it onto the device of the target
            if how >= 4 && foreign.is_some() {
                ctx.skip("not claimed");
                return Ok(());
            }
            ("in-place".into(), ok, r)
        }
        _ => {
            let (n, f) = UNARY[which];
            let ok = sh[0] == sh[4] && sh[2] == sh[3] && sh[0] == sh[2];
            (n.into(), ok, guarded(|| f(dev_ref, &a, &y, &gy, &mut g)))
        }
    };
    let involved = match foreign {
        Some(0) => uses_x,
        Some(1) => two,
        Some(2) => uses_x,
        Some(_) => true,
        None => false,
    };
    let ok = ok && !involved;
    ctx.desc(|| {
        format!(
            "{} dim {} lower {} ids {:?} on a={} b={} y={} gy={} g={} foreign {:?}",
            name,
            dim,
            lo,
            ids,
            sh[0].show(),
            sh[1].show(),
            sh[2].show(),
            sh[3].show(),
            sh[4].show(),
            foreign
        )
    });
    ctx.label(format!("{} {}", name, if ok { "accept" } else { "refuse" }));
    ctx.nontrivial();
    match (got, ok) {
        (Ok(()), false) => Err(format!("{} is accepted although its tensors do not fit", name)),
        (Err(e), true) => Err(format!("{} is refused although well-formed: {}", name, e)),
        _ => Ok(()),
    }
}

/// the device's forward functions, called directly
fn forward(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim { depth: 4, vol: 40, batch: 3 };
    let dev = D::Naive::new();
    let stranger = D::Naive::new();
    let d = &dev;
    let foreign = s.chance(1, 3);
    let how = s.below(8);
    let at = s.below(1 << 16) as usize;
    let everything = s.chance(1, 4);
    // what is called, whether it fits, and with which result
    let (op, a): (Op, Vec<Sh>);
    let mut index = None;
    let mut scalar = false;
    if how == 0 {
        let sh = gen::shape(&mut s, l);
        let dim = s.below(8);
        index = Some(s.below(3));
        op = Op::Max(dim);
        a = vec![sh];
    } else if how <= 3 {
        let x = gen::shape(&mut s, l);
        let bb = gen::compat_batch(&mut s, x.batch, 3);
        scalar = s.bool();
        let mut k = if scalar { Sh::new(&[], bb) } else { x.with_batch(bb) };
        if s.chance(1, 3) {
            k = other_shape(&mut s, &k);
        }
        op = [Op::Add(0), Op::Sub(0), Op::Mul(0), Op::Div(0), Op::Pow(0)][s.index(5)].clone();
        a = vec![x, k];
    } else {
        let (o, v, _) = mutated(&mut s, l);
        op = o;
        a = v;
    }
    let left = s.bool();
    if a.is_empty() {
        ctx.skip("no operand");
        return Ok(());
    }
    let at = at % a.len();
    let ts: Vec<Tensor> = a
        .iter()
        .enumerate()
        .map(|(i, sh)| (if foreign && (i == at || everything) { &stranger } else { &dev }).new_tensor_by_constant(to_shape(sh), 0.5))
        .collect();
    let r: Vec<&Tensor> = ts.iter().collect();
    let two = how >= 1 && how <= 3;
    let want: Option<Vec<Sh>> = if index.is_some() {
        Some(vec![])
    } else if two {
        if scalar {
            (a[1].dims.is_empty() && a[0].compat(&a[1])).then(|| vec![a[0].with_batch(a[0].batch.max(a[1].batch))])
        } else {
            pvcore::ops::elementwise(&a[0], &a[1]).map(|x| vec![x])
        }
    } else {
        match verdict(&op, &a) {
            Some(w) => w,
            None => {
                ctx.skip("not claimed");
                return Ok(());
            }
        }
    };
    let want = if foreign { None } else { want };
    let known = std::cell::Cell::new(true);
    let got = guarded(|| {
        if let Some(i) = index {
            let Op::Max(dim) = op else { unreachable!() };
            let v = match i {
                0 => d.argmax(r[0], dim),
                1 => d.argmin(r[0], dim),
                _ => d.argsort(r[0], dim),
            };
            let n = if i == 2 { a[0].size() } else { a[0].size() / a[0].d(dim) as usize };
            assert!(v.len() == n, "{} indices", v.len());
            return vec![];
        }
        let y = if two {
            match (&op, scalar, left) {
                (Op::Add(_), false, _) => d.add_fw(r[0], r[1]),
                (Op::Sub(_), false, _) => d.sub_fw(r[0], r[1]),
                (Op::Mul(_), false, _) => d.mul_fw(r[0], r[1]),
                (Op::Div(_), false, _) => d.div_fw(r[0], r[1]),
                (_, false, _) => d.powf_fw(r[0], r[1]),
                (Op::Add(_), _, _) => d.add_scalar_fw(r[0], r[1]),
                (Op::Sub(_), _, true) => d.sub_scalar_l_fw(r[0], r[1]),
                (Op::Sub(_), _, _) => d.sub_scalar_r_fw(r[0], r[1]),
                (Op::Mul(_), _, _) => d.mul_scalar_fw(r[0], r[1]),
                (Op::Div(_), _, true) => d.div_scalar_l_fw(r[0], r[1]),
                (Op::Div(_), _, _) => d.div_scalar_r_fw(r[0], r[1]),
                (_, _, true) => d.powf_scalar_l_fw(r[0], r[1]),
                _ => d.powf_scalar_r_fw(r[0], r[1]),
            }
        } else {
            match &op {
                Op::Neg(_) => d.neg_fw(r[0]),
                Op::AddC(k, _) => d.add_const_fw(r[0], *k),
                Op::SubCL(k, _) => d.sub_const_l_fw(r[0], *k),
                Op::SubCR(k, _) => d.sub_const_r_fw(r[0], *k),
                Op::MulC(k, _) => d.mul_const_fw(r[0], *k),
                Op::DivCL(k, _) => d.div_const_l_fw(r[0], *k),
                Op::DivCR(k, _) => d.div_const_r_fw(r[0], *k),
                Op::PowCL(k) => d.powf_const_l_fw(r[0], *k),
                Op::Powf(k) => d.powf_const_r_fw(r[0], *k),
                Op::Powi(k) => d.powi_fw(r[0], *k),
                Op::Sqrt => d.sqrt_fw(r[0]),
                Op::Abs => d.abs_fw(r[0]),
                Op::Sin => d.sin_fw(r[0]),
                Op::Cos => d.cos_fw(r[0]),
                Op::Tan => d.tan_fw(r[0]),
                Op::Exp => d.exp_fw(r[0]),
                Op::Ln => d.ln_fw(r[0]),
                Op::Tanh => d.tanh_fw(r[0]),
                Op::Sigmoid => d.sigmoid_fw(r[0]),
                Op::Softplus => d.softplus_fw(r[0]),
                Op::Prelu(k) => d.prelu_fw(r[0], *k),
                Op::Elu(k) => d.elu_fw(r[0], *k),
                Op::Sum(n) => d.sum_fw(r[0], *n),
                Op::Max(n) => d.max_fw(r[0], *n),
                Op::Min(n) => d.min_fw(r[0], *n),
                Op::Logsumexp(n) => d.logsumexp_fw(r[0], *n),
                Op::Broadcast(n, k) => d.broadcast_fw(r[0], *n, *k),
                Op::Matmul(_) => d.matmul_fw(r[0], r[1]),
                Op::Transpose => d.transpose_fw(r[0]),
                Op::TriL(k) => d.triangular_l_fw(r[0], *k),
                Op::TriU(k) => d.triangular_u_fw(r[0], *k),
                Op::Slice(n, lo, up) => d.slice_fw(r[0], *n, *lo, *up),
                Op::Pick(ids, n) => d.pick_fw(r[0], ids, *n),
                Op::Concat(n) => d.concat_fw(&r, *n),
                Op::BatchSum => d.batch_sum_fw(r[0]),
                Op::BatchSlice(lo, up) => d.batch_slice_fw(r[0], *lo, *up),
                Op::BatchPick(ids) => d.batch_pick_fw(r[0], ids),
                Op::BatchConcat => d.batch_concat_fw(&r),
                _ => {
                    known.set(false);
                    return vec![];
                }
            }
        };
        if y.to_vec().len() != y.shape().size() as usize {
            panic!("result has another number of elements");
        }
        vec![from_shape(y.shape())]
    });
    if !known.get() {
        ctx.skip("not a function of the device");
        return Ok(());
    }
    let name = match index {
        Some(i) => ["argmax", "argmin", "argsort"][i as usize].to_string(),
        None => format!("{}{}", op.name(), if scalar { " scalar" } else { "" }),
    };
    ctx.desc(|| {
        format!("device function {} {:?} on {}{}", name, op, a.iter().map(|s| s.show()).collect::<Vec<_>>().join(", "), if foreign { ", not all on the device" } else { "" })
    });
    ctx.label(format!("{} {}", name, if want.is_some() { "accept" } else { "refuse" }));
    ctx.nontrivial();
    judge("device call", got, &want)
}

/// operands on another device, and everything else that takes shapes or lists
fn other(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let dev2 = D::Naive::new();
    let l = Lim { depth: 4, vol: 40, batch: 3 };
    let sh = gen::shape(&mut s, l);
    let sh2 = if s.bool() { sh.clone() } else { other_shape(&mut s, &sh) };
    let d1 = vec![1.0; sh.size()];
    let what = s.below(13);
    let (name, ok, got): (&str, bool, Result<(), String>) = match what {
        0 => {
            let n = sh2.size() + s.index(2) * s.index(3);
            let v = vec![2.0; n];
            ("new_tensor_by_slice", n == sh.size(), guarded(|| drop(dev.new_tensor_by_slice(to_shape(&sh), &v))))
        }
        1 => {
            let n = if s.bool() { sh2.size() } else { sh.size() + 1 };
            let v = vec![2.0; n];
            let mut t = mk(&dev, &sh, &d1);
            ("reset_tensor_by_slice", n == sh.size(), guarded(|| dev.reset_tensor_by_slice(&mut t, &v)))
        }
        2 => {
            let mut t = mk(&dev, &sh, &d1);
            let u = dev.new_tensor_by_constant(to_shape(&sh2), 3.0);
            ("reset_tensor_by_tensor", sh.size() == sh2.size(), guarded(|| dev.reset_tensor_by_tensor(&mut t, &u)))
        }
        3 => {
            let sh = match s.below(4) {
                0 => Sh::new(&[], 1),
                1 => Sh::new(&[], s.range(1, 4)),
                2 => Sh::new(&[s.range(1, 3)], s.range(1, 3)),
                _ => sh.clone(),
            };
            let t = dev.new_tensor_by_constant(to_shape(&sh), 3.0);
            let node = s.bool();
            (
                "to_float",
                sh.size() == 1,
                guarded(|| {
                    if node {
                        Node::from(&t).to_float();
                    } else {
                        t.to_float();
                    }
                }),
            )
        }
        4 => {
            let v = mk(&dev, &sh, &d1);
            let g = dev.new_tensor_by_constant(to_shape(&sh.with_batch(sh2.batch)), 0.0);
            ("Parameter::new", sh.batch == 1 && sh2.batch == 1, guarded(|| drop(Parameter::new(v, g))))
        }
        5 => {
            let mut t = mk(&dev, &sh, &d1);
            ("update_shape", sh.size() == sh2.size(), guarded(|| t.update_shape(to_shape(&sh2))))
        }
        6 => {
            let mut t = mk(&dev, &sh, &d1);
            ("alloc of a tensor that has memory", false, guarded(|| t.alloc()))
        }
        7 => {
            let mut t = dev.new_tensor(to_shape(&sh));
            let on2 = s.bool();
            let u = (if on2 { &dev2 } else { &dev }).new_tensor_by_constant(to_shape(&sh2), 3.0);
            let filled = s.chance(1, 4);
            if filled {
                t.alloc();
                t.reset(0.0);
            }
            ("replace", sh == sh2 && !on2 && !filled, guarded(move || t.replace(u)))
        }
        8 => {
            let mut t = dev.new_tensor(to_shape(&sh));
            let on2 = s.bool();
            let filled = s.chance(1, 4);
            if filled {
                t.alloc();
                t.reset(0.0);
            }
            let u = (if on2 { &dev2 } else { &dev }).new_tensor_by_constant(to_shape(&sh2), 3.0);
            let uref: &Tensor = &u;
            // SAFETY of lifetimes: t does not outlive u
            let r = guarded(|| {
                let mut t = t;
                t.refer(unsafe { std::mem::transmute::<&Tensor, &'static Tensor<'static>>(uref) });
                drop(t);
            });
            ("refer", sh == sh2 && !on2 && !filled, r)
        }
        9 => {
            let n = if s.bool() { sh.size() } else { sh2.size() };
            let mut t = Tensor::new_host_tensor(to_shape(&sh), vec![1.0; n]);
            let twice = s.chance(1, 4);
            (
                "move_to_device",
                n == sh.size() && !twice,
                guarded(|| {
                    t.move_to_device(&dev);
                    if twice {
                        t.move_to_device(&dev2);
                    }
                }),
            )
        }
        10 => {
            let sh = sh.with_batch(1);
            (
                "Xavier initializer",
                sh.is_matrix(),
                guarded(|| drop(dev.new_parameter(to_shape(&sh), &pu::initializers::XavierUniform::new(1.0)))),
            )
        }
        11 => {
            let c = pu::initializers::Constant::new(0.5);
            ("new_parameter", sh.batch == 1, guarded(|| drop(dev.new_parameter(to_shape(&sh), &c))))
        }
        _ => {
            // operands from two devices
            let kinds = [Kind::Binary, Kind::Matrix, Kind::Move, Kind::Batch];
            let kind = kinds[s.index(4)];
            let c = gen::call(&mut s, kind, l, false);
            if c.args.len() < 2 {
                ctx.skip("one operand");
                return Ok(());
            }
            let at = s.index(c.args.len());
            let ts: Vec<Tensor> = c
                .args
                .iter()
                .enumerate()
                .map(|(i, (sh, _))| (if i == at { &dev2 } else { &dev }).new_tensor_by_constant(to_shape(sh), 1.0))
                .collect();
            // without ownership variants, which copy operands
            let op = match c.op {
                Op::Add(_) => Op::Add(0),
                Op::Sub(_) => Op::Sub(0),
                Op::Mul(_) => Op::Mul(0),
                Op::Div(_) => Op::Div(0),
                Op::Pow(_) => Op::Pow(0),
                Op::Matmul(_) => Op::Matmul(0),
                o => o,
            };
            ctx.desc(|| format!("operand {} of {:?} on another device", at, op));
            let r: Vec<&Tensor> = ts.iter().collect();
            ("call across devices", false, guarded(|| drop(apply_tensor(&op, &r))))
        }
    };
    ctx.desc(|| format!("{} {} / {} should be {}", name, sh.show(), sh2.show(), if ok { "accepted" } else { "refused" }));
    ctx.label(format!("{} {}", name, if ok { "accept" } else { "refuse" }));
    ctx.nontrivial();
    match (got, ok) {
        (Ok(()), false) => Err(format!("{} is accepted", name)),
        (Err(e), true) => Err(format!("{} is refused although well-formed: {}", name, e)),
        _ => Ok(()),
    }
}

fn main() {
    run_main(Check {
        id: "C18",
        rule: "call: a generated well-formed call of any operation with zero to two changes (operand shapes, minibatch sizes, dimension index up to 2^32-1, bounds, ids, counts, operand lists), made on tensors and on graph nodes: accepted exactly when the written-down rule accepts, with exactly the ruled result shapes, otherwise a panic at the latest on evaluation. device: the device's backward and in-place functions with one or two wrong tensors or a tensor of another device. forward: its forward and index functions called directly, with wrong shapes or tensors of another device. other: constructors, references, replacement, host tensors, parameters, initializers, operands from two devices. Every decided case counts.",
        assumptions: &["results of more than 65536 elements are not made", "a scalar target distribution for non-scalar scores is not documented and left out"],
        subs: vec![
            Sub { name: "call", head: 70, steps: (0, 0), step_len: 0, quick: 625_000, thorough: 25_000_000, run: call },
            Sub { name: "device", head: 60, steps: (0, 0), step_len: 0, quick: 375_000, thorough: 15_000_000, run: device },
            Sub { name: "forward", head: 70, steps: (0, 0), step_len: 0, quick: 250_000, thorough: 10_000_000, run: forward },
            Sub { name: "other", head: 60, steps: (0, 0), step_len: 0, quick: 300_000, thorough: 12_000_000, run: other },
        ],
    })
}
