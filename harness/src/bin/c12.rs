use harness::*;

fn lazy(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &Opts { max_size: 500, max_err: 1e-2, ..Opts::DEFAULT });
    let p = &b.prog;
    let mut s = Src::new(&case.head[24..]);
    let dev = D::Naive::new();
    ctx.desc(|| p.show());
    if p.steps.len() >= 2 {
        ctx.nontrivial();
    }
    for st in &p.steps {
        ctx.label(st.op.name());
    }
    let eager_first = s.bool();
    let eager = if eager_first { Some(run_tensors(&dev, p)) } else { None };
    let tensors: Vec<Tensor> = p.leaves.iter().map(|(sh, d)| mk(&dev, sh, d)).collect();
    let mut v: Vec<Node> = vec![];
    for (i, (sh, d)) in p.leaves.iter().enumerate() {
        // equal inputs sometimes refer to one tensor
        let k = if s.bool() { (0..i).find(|&j| p.leaves[j].0 == *sh && bits(&p.leaves[j].1) == bits(d)).unwrap_or(i) } else { i };
        v.push(if s.bool() { Node::from(&tensors[k]) } else { Node::from(mk(&dev, sh, d)) });
    }
    for st in &p.steps {
        let r = {
            let a: Vec<&Node> = st.args.iter().map(|&i| &v[i]).collect();
            apply_node(&st.op, &a)
        };
        v.extend(r);
        // some values are evaluated while the graph is still being built
        if s.chance(1, 6) {
            let k = s.index(v.len());
            v[k].forward();
        }
    }
    if v.len() != p.len() {
        return Err(format!("{} graph values, expected {}", v.len(), p.len()));
    }
    for (i, n) in v.iter().enumerate() {
        let sh = from_shape(n.shape());
        if sh != p.shapes[i] {
            return Err(format!("shape of v{} before evaluation is {}, expected {}", i, sh.show(), p.shapes[i].show()));
        }
    }
    let eager = eager.unwrap_or_else(|| run_tensors(&dev, p));
    // some values are no longer held by anyone when the others are evaluated
    let mut v: Vec<Option<Node>> = v.into_iter().map(Some).collect();
    if s.chance(1, 3) {
        let keep = s.range(2, 5) as usize;
        let last = v.len() - 1;
        for (i, n) in v.iter_mut().enumerate() {
            if i % keep != 0 && i != last {
                *n = None;
            }
        }
    }
    // evaluate in some order
    let n = v.len();
    let start = s.index(n);
    let stride = *s.pick(&[1usize, 2, 3, 5, 7]);
    for k in 0..2 * n {
        let i = if k < n { (start + k * stride) % n } else { k - n };
        let i = if s.chance(1, 3) { n - 1 - i } else { i };
        let Some(node) = &v[i] else { continue };
        let got = node.to_vec();
        check_shape(&format!("eager v{}", i), &eager[i], &p.shapes[i])?;
        if from_shape(node.shape()) != p.shapes[i] {
            return Err(format!("shape of v{} changed by evaluation", i));
        }
        check_bits(&format!("v{}", i), &got, &eager[i].to_vec())?;
        if p.shapes[i].size() == 1 {
            check_bits(&format!("v{} as a number", i), &[node.to_float()], &[eager[i].to_float()])?;
        }
    }
    for (t, (_, d)) in tensors.iter().zip(&p.leaves) {
        check_bits("input", &t.to_vec(), d)?;
    }
    Ok(())
}

/// every single operation, over the whole range of operand shapes
fn single(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, false);
    let data = call.data();
    ctx.desc(|| call.show());
    ctx.label(call.op.name());
    ctx.nontrivial();
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(&dev, sh, d)).collect();
    let ns: Vec<Node> = xs.iter().map(Node::from).collect();
    let a = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
    let b = apply_node(&call.op, &ns.iter().collect::<Vec<_>>());
    if a.len() != b.len() {
        return Err(format!("{} eager results, {} lazy results", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(&b) {
        if x.shape() != y.shape() {
            return Err(format!("lazy shape {}, eager shape {}", from_shape(y.shape()).show(), from_shape(x.shape()).show()));
        }
    }
    for (x, y) in a.iter().zip(&b).rev() {
        let (p, q) = (x.to_vec(), y.to_vec());
        if !(p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())) {
            check_bits("lazy value", &q, &p)?;
        }
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| single(case, ctx))
}

fn main() {
    run_main(Check {
        id: "C12",
        rule: "program: random programs of up to 16 operations run eagerly on tensors and built as a lazy graph (inputs owned or referenced, some values evaluated during construction, all values then evaluated in a scrambled order, twice): shapes before evaluation, shapes after, and values bit for bit; non-trivial with at least two operations. single: each operation once on generated operands of all shapes; every case counts. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &[],
        subs: vec![
            Sub { name: "program", head: 80, steps: (1, 16), step_len: 36, quick: 245_000, thorough: 9_800_000, run: lazy },
            Sub { name: "single", head: 60, steps: (0, 0), step_len: 0, quick: 525_000, thorough: 21_000_000, run: single },
            Sub { name: "long", head: 66, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
