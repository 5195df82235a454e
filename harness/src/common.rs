//! Runners shared by several checks.
use std::cell::RefCell;

use crate::*;

pub fn leaves(t: &mut Tape, call: &Call, data: &[Vec<f32>]) -> Vec<Rt> {
    call.args.iter().zip(data).map(|((sh, _), d)| Rt::from_data(t, sh, d)).collect()
}

/// one generated well-formed call: every result against the reference
pub fn forward_call(call: &Call, ctx: &mut Ctx) -> Result<(), String> {
    let dev = D::Naive::new();
    forward_on(&dev, call, ctx)
}

/// a call and others that resemble it, in turn, on one device or each on its own: nothing is left
/// over from one in the next
pub fn relatives(case: &Case, ctx: &mut Ctx, kinds: &[Kind], grad: bool) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = kinds[s.index(kinds.len())];
    let w = s.word() as u64;
    let n = s.range(2, 6) as usize;
    let one = s.bool();
    let l = [Lim { depth: 3, vol: 12, batch: 3 }, Lim { depth: 4, vol: 48, batch: 4 }, Lim { depth: 5, vol: 120, batch: 4 }][s.weighted(&[3, 3, 1])];
    let base = gen::call(&mut s, kind, l, grad);
    a_row(&mut s, &base, w, n, one, ctx, grad)
}

/// a call and up to `n` that resemble it, one after another, and the first once more
pub fn a_row(s: &mut Src, base: &Call, w: u64, n: usize, one: bool, ctx: &mut Ctx, grad: bool) -> Result<(), String> {
    let all = gen::relatives(base, w, n);
    let dev = D::Naive::new();
    // one after another, and once more from the start
    for i in 0..all.len() + all.len().min(3) {
        let c = &all[i % all.len()];
        let other = D::Naive::new();
        let d = if one { &dev } else { &other };
        // SAFETY: nothing made here outlives this turn
        let d: &Device = unsafe { &*(d as *const Device) };
        let r = if grad {
            if matches!(c.op, Op::SoftmaxCE(_)) {
                continue;
            }
            let shapes: Vec<Sh> = c.args.iter().map(|a| a.0.clone()).collect();
            ctx.desc(|| c.show());
            gradient_on(d, s, &c.op, &shapes, &c.data(), ctx)
        } else {
            forward_on(d, c, ctx)
        };
        r.map_err(|e| format!("call {} of a row: {}", i, e))?;
    }
    Ok(())
}

pub fn forward_on<'d>(dev: &'d Device<'d>, call: &Call, ctx: &mut Ctx) -> Result<(), String> {
    ctx.desc(|| call.show());
    let data = call.data();
    let mut t = Tape::new();
    let rts = leaves(&mut t, call, &data);
    let want = call.op.eval(&mut t, &rts.iter().collect::<Vec<_>>());
    if let Some(b) = t.bad {
        ctx.skip(b);
        return Ok(());
    }
    ctx.label(call.op.name());
    if call.total() > 1 {
        ctx.nontrivial();
    }
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(dev, sh, d)).collect();
    let xr: Vec<&Tensor> = xs.iter().collect();
    let ys = apply_tensor(&call.op, &xr);
    if ys.len() != want.len() {
        return Err(format!("{} results, expected {}", ys.len(), want.len()));
    }
    for (i, (y, w)) in ys.iter().zip(&want).enumerate() {
        check_tensor(&format!("result {} of {}", i, call.op.name()), y, &t, w)?;
    }
    for (i, (x, d)) in xs.iter().zip(&data).enumerate() {
        check_bits(&format!("operand {} afterwards", i), &x.to_vec(), d)?;
    }
    Ok(())
}

/// cotangents: small integers, reals, sparse, one-hot
pub fn cotangent(s: &mut Src, n: usize) -> Vec<f32> {
    let seed = s.word();
    match s.weighted(&[4, 4, 2, 1]) {
        0 => Vals { mode: Mode::Ints(5), seed, exp: 0 }.fill(n),
        1 => Vals { mode: Mode::Signed(0.1, 2.0), seed, exp: 0 }.fill(n),
        2 => {
            let v = Vals { mode: Mode::Ints(4), seed, exp: 0 }.fill(n);
            v.iter().enumerate().map(|(i, &x)| if mix(seed as u64 ^ i as u64) % 4 == 0 { x } else { 0.0 }).collect()
        }
        _ => {
            let mut v = vec![0.0; n];
            if n > 0 {
                v[mix(seed as u64) as usize % n] = 1.0;
            }
            v
        }
    }
}

/// back-propagates through one operation of a graph: `prior[i]` is already in the gradient of operand i
/// and `cots[j]` in the gradient of result j when the operation's turn comes
pub fn graph_vjp(
    op: &Op,
    shapes: &[Sh],
    data: &[Vec<f32>],
    prior: &[Vec<f32>],
    cots: &[Vec<f32>],
    how: Share,
) -> Vec<Vec<f32>> {
    let dev = D::Naive::new();
    graph_vjp_on(&dev, op, shapes, data, prior, cots, how)
}

/// how the operands of an operation come to be
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Share {
    /// values of their own
    Owned,
    /// one node used for both
    SameNode,
    /// references to tensors
    Refs,
    /// nodes of their own that refer to one tensor, where the operands are equal
    SameTensor,
}

pub fn graph_vjp_on<'d>(
    dev: &'d Device<'d>,
    op: &Op,
    shapes: &[Sh],
    data: &[Vec<f32>],
    prior: &[Vec<f32>],
    cots: &[Vec<f32>],
    how: Share,
) -> Vec<Vec<f32>> {
    let same = how == Share::SameNode;
    let n_leaf = if same { 1 } else { shapes.len() };
    let ts: Vec<Tensor> = (0..n_leaf).map(|i| mk(dev, &shapes[i], &data[i])).collect();
    let first = |i: usize| (0..i).find(|&j| shapes[j] == shapes[i] && bits(&data[j]) == bits(&data[i])).unwrap_or(i);
    let xs: Vec<Node> = (0..n_leaf)
        .map(|i| match how {
            Share::Refs => Node::from(&ts[i]),
            Share::SameTensor => Node::from(&ts[first(i)]),
            _ => Node::from(mk(dev, &shapes[i], &data[i])),
        })
        .collect();
    let xr: Vec<&Node> = (0..shapes.len()).map(|i| &xs[if same { 0 } else { i }]).collect();
    let ys = apply_node(op, &xr);
    let mut args: Vec<&Node> = ys.iter().collect();
    args.extend(xs.iter());
    let mut c = cots.to_vec();
    c.extend(prior.iter().take(n_leaf).cloned());
    let root = Node::create(Seed { device: dev, cots: c }, &args).pop().unwrap();
    root.backward();
    let r = xs.iter().map(|x| x.inner_gradient().to_vec()).collect();
    r
}

/// one generated well-formed call: the gradient of every operand against the reference adjoint,
/// added to what was there before
pub fn gradient_call(s: &mut Src, call: &Call, ctx: &mut Ctx) -> Result<(), String> {
    let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
    ctx.desc(|| call.show());
    gradient_data(s, &call.op, &shapes, &call.data(), ctx)
}

pub fn gradient_data(s: &mut Src, op: &Op, shapes: &[Sh], data: &[Vec<f32>], ctx: &mut Ctx) -> Result<(), String> {
    let dev = D::Naive::new();
    gradient_on(&dev, s, op, shapes, data, ctx)
}

pub fn gradient_on<'d>(dev: &'d Device<'d>, s: &mut Src, op: &Op, shapes: &[Sh], data: &[Vec<f32>], ctx: &mut Ctx) -> Result<(), String> {
    // sometimes both operands are the same value, or refer to the same tensor
    let alike = shapes.len() == 2 && shapes[0] == shapes[1] && !matches!(op, Op::SoftmaxCE(_));
    let how = match s.below(6) {
        0 if alike => Share::SameNode,
        1 if alike => Share::SameTensor,
        2 => Share::Refs,
        _ => Share::Owned,
    };
    let same = how == Share::SameNode;
    let mut data = data.to_vec();
    if how == Share::SameTensor {
        data[1] = data[0].clone();
    }
    let data = &data[..];
    let mut t = Tape::new();
    let mut rts: Vec<Rt> = shapes.iter().zip(data).map(|(sh, d)| Rt::from_data(&mut t, sh, d)).collect();
    if same {
        rts[1] = rts[0].clone();
    }
    let want = op.eval(&mut t, &rts.iter().collect::<Vec<_>>());
    if let Some(b) = t.bad.or(t.nondiff) {
        ctx.skip(b);
        return Ok(());
    }
    let cots: Vec<Vec<f32>> = want.iter().map(|w| cotangent(s, w.id.len())).collect();
    let with_prior = s.chance(2, 3);
    let prior: Vec<Vec<f32>> =
        rts.iter().map(|r| if with_prior { cotangent(s, r.id.len()) } else { vec![0.0; r.id.len()] }).collect();
    if how != Share::Owned {
        ctx.desc(|| format!("operands: {:?}", how));
    }
    ctx.label(op.name());
    ctx.key((&cots.iter().map(|c| bits(c)).collect::<Vec<_>>(), with_prior));
    let mut seeds = vec![];
    for (w, c) in want.iter().zip(&cots) {
        seeds.extend(w.id.iter().copied().zip(c.iter().copied()));
    }
    let n_leaf = if same { 1 } else { rts.len() };
    for (r, c) in rts.iter().take(n_leaf).zip(&prior) {
        seeds.extend(r.id.iter().copied().zip(c.iter().copied()));
    }
    let g = t.gradients(&seeds);
    if cots.iter().any(|c| c.iter().any(|&v| v != 0.0)) {
        ctx.nontrivial();
    }
    let got = graph_vjp_on(dev, op, shapes, data, &prior, &cots, how);
    for i in 0..n_leaf {
        check_grad(&format!("gradient of operand {} of {}", i, op.name()), &got[i], &g, &rts[i])?;
    }
    Ok(())
}

pub fn leaf_nodes<'a, 'd: 'a>(dev: &'d Device<'d>, p: &Prog) -> Vec<Node<'a, 'd>> {
    p.leaves.iter().map(|(sh, d)| Node::from(mk(dev, sh, d))).collect()
}

/// builds the whole program as a lazy graph
pub fn build_nodes<'a, 'd: 'a>(dev: &'d Device<'d>, p: &Prog) -> Vec<Node<'a, 'd>> {
    let mut v = leaf_nodes(dev, p);
    for st in &p.steps {
        let r = {
            let a: Vec<&Node> = st.args.iter().map(|&i| &v[i]).collect();
            apply_node(&st.op, &a)
        };
        v.extend(r);
    }
    v
}

/// evaluates the whole program eagerly
pub fn run_tensors<'d>(dev: &'d Device<'d>, p: &Prog) -> Vec<Tensor<'d>> {
    let mut v: Vec<Tensor> = p.leaves.iter().map(|(sh, d)| mk(dev, sh, d)).collect();
    for st in &p.steps {
        let r = {
            let a: Vec<&Tensor> = st.args.iter().map(|&i| &v[i]).collect();
            apply_tensor(&st.op, &a)
        };
        v.extend(r);
    }
    v
}

/// adds `v` to the gradient behind a cell
pub fn add_to(g: &RefCell<Tensor>, v: &[f32]) {
    let mut g = g.borrow_mut();
    let mut cur = g.to_vec();
    for (c, x) in cur.iter_mut().zip(v) {
        *c += x;
    }
    let dev = g.device();
    dev.reset_tensor_by_slice(&mut g, &cur);
}

/// sometimes: every element becomes one of two special values
pub fn two_values(s: &mut Src, v: &mut [f32], odds: u32, finite: bool) {
    const P: &[f32] = &[0.0, -0.0, 1.0, -1.0, 0.5, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1.0e-45, f32::INFINITY, f32::NEG_INFINITY];
    if v.is_empty() || !s.chance(1, odds) {
        return;
    }
    let n = if finite { P.len() - 2 } else { P.len() };
    let (a, b) = (P[s.index(n)], P[s.index(n)]);
    let how = s.below(4);
    let seed = s.word();
    let at = mix(seed as u64) as usize % v.len();
    for (i, x) in v.iter_mut().enumerate() {
        *x = match how {
            0 => if mix((seed as u64) << 32 | i as u64) & 1 == 0 { a } else { b },
            1 => if i == at { b } else { a },
            2 => if i < at { a } else { b },
            _ => a,
        };
    }
}
