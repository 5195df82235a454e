//! Registration of kernels, and which kernels the public functions run.
use harness::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

use pu::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};

struct Plain(String);

impl DeviceImpl for Plain {
    fn identifier(&self) -> String {
        self.0.clone()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        inner().new_handle(size)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        inner().drop_handle(h)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Seen {
    id: u32,
    kind: usize,
    xs: Vec<usize>,
    ys: Vec<usize>,
    gys: Vec<usize>,
    u: Vec<u32>,
    f: Vec<u32>,
    out: Vec<usize>,
}

type Log = Arc<Mutex<Vec<Seen>>>;

/// a kernel that notes what it is given and marks its results with its number
struct Kern {
    id: u32,
    log: Log,
    gone: Arc<Mutex<Vec<u32>>>,
}

impl Drop for Kern {
    fn drop(&mut self) {
        self.gone.lock().unwrap().push(self.id);
    }
}

fn hs(t: &[&Tensor]) -> Vec<usize> {
    t.iter().map(|t| *t as *const Tensor as *const u8 as usize).collect()
}

fn put(y: &mut Tensor, v: f32) {
    inner().call_fw_impl("reset_tensor_impl", &[], &[], &[v], &mut [y]);
}

impl FunctionFwImpl for Kern {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let out = ys.iter().map(|y| &**y as *const Tensor as *const u8 as usize).collect();
        self.log.lock().unwrap().push(Seen { id: self.id, kind: 0, xs: hs(xs), u: u.to_vec(), f: bits(f), out, ..Seen::default() });
        for (i, y) in ys.iter_mut().enumerate() {
            put(y, (self.id * 10 + i as u32) as f32);
        }
    }
}
impl FunctionFwU32Impl for Kern {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        let out = vec![ys.len()];
        self.log.lock().unwrap().push(Seen { id: self.id, kind: 1, xs: hs(xs), u: u.to_vec(), f: bits(f), out, ..Seen::default() });
        for (i, y) in ys.iter_mut().enumerate() {
            *y = self.id * 10 + i as u32;
        }
    }
}
impl FunctionFwF32Impl for Kern {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        let out = vec![ys.len()];
        self.log.lock().unwrap().push(Seen { id: self.id, kind: 2, xs: hs(xs), u: u.to_vec(), f: bits(f), out, ..Seen::default() });
        for (i, y) in ys.iter_mut().enumerate() {
            *y = (self.id * 10 + i as u32) as f32;
        }
    }
}
impl FunctionBwImpl for Kern {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        let out = vec![&*gx as *const Tensor as *const u8 as usize];
        self.log.lock().unwrap().push(Seen { id: self.id, kind: 3, xs: hs(xs), ys: hs(ys), gys: hs(gys), u: u.to_vec(), f: bits(f), out });
        put(gx, (self.id * 10) as f32);
    }
}

const NAMES: &[&str] = &[
    "add_fw_impl", "sum_fw_impl", "tensor_to_vector_impl", "reset_tensor_impl", "x", "X", "x ", "", "add_fw", "add_bw_a_impl", "add_bw_b_impl", "größe", "a/b\0c",
];

fn registry(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let nd = s.range(1, 3) as usize;
    let log: Log = Default::default();
    let gone: Arc<Mutex<Vec<u32>>> = Default::default();
    // long names that differ in one place only
    let len = [s.range(8, 70), s.range(71, 300)][s.index(2)] as usize;
    let same = s.index(4);
    let lw = s.word() as u64;
    let mut names: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    for i in 0..8u64 {
        let mut n: Vec<u8> = (0..len).map(|k| b'a' + (mix(lw ^ k as u64) % 26) as u8).collect();
        let at = if same == 0 { len - 1 } else { mix(lw ^ i << 20 ^ same as u64) as usize % len };
        n[at] = b'0' + i as u8;
        if i == 7 {
            n.pop();
        }
        names.push(String::from_utf8(n).unwrap());
    }
    let names = &names;
    let mut devs: Vec<Device> = (0..nd).map(|i| Device::new(Plain(format!("device {}", i)))).collect();
    let mut table: Vec<HashMap<(usize, &str), u32>> = vec![HashMap::new(); nd];
    let mut next = 0;
    let mut replaced = 0;
    let mut dead: Vec<u32> = vec![];
    let stock: Vec<Tensor> = (0..5).map(|i| inner().new_tensor_by_constant(Shape::new(&[i + 1], 1), i as f32)).collect();
    let mut calls = 0;
    for w in &case.steps {
        let mut s = Src::new(w);
        let d = s.index(nd);
        let name: &str = match s.below(4) {
            0 | 1 => &names[s.index(4)],
            2 => &names[s.index(NAMES.len())],
            _ => &names[NAMES.len() + s.index(8)],
        };
        let kind = s.below(4) as usize;
        if s.chance(2, 5) {
            next += 1;
            let k = Kern { id: next, log: log.clone(), gone: gone.clone() };
            ctx.desc(|| format!("register #{} as {:?} kind {} on device {}", next, name, kind, d));
            // the name given need not outlive the call
            let owned = name.to_string();
            match kind {
                0 => devs[d].register_fw_impl(&owned, k),
                1 => devs[d].register_fw_u32_impl(&owned, k),
                2 => devs[d].register_fw_f32_impl(&owned, k),
                _ => devs[d].register_bw_impl(&owned, k),
            }
            drop(owned);
            if let Some(old) = table[d].insert((kind, name), next) {
                dead.push(old);
                replaced += 1;
            }
        } else {
            let pick = |s: &mut Src| -> Vec<&Tensor> {
                let n = s.below(4);
                (0..n).map(|_| &stock[s.index(stock.len())]).collect()
            };
            let (xs, ys, gys) = (pick(&mut s), pick(&mut s), pick(&mut s));
            let u: Vec<u32> = (0..s.below(4)).map(|_| s.word()).collect();
            let f: Vec<f32> = (0..s.below(4)).map(|_| f32::from_bits(s.word())).collect();
            let n = s.below(4) as usize;
            ctx.desc(|| format!("call {:?} kind {} on device {} with {} operands, {:?}, {} floats, {} results", name, kind, d, xs.len(), u, f.len(), n));
            let mut outs: Vec<Tensor> = (0..n.max(1)).map(|i| inner().new_tensor_by_constant(Shape::new(&[i as u32 + 2], 1), -1.0)).collect();
            let mut want = Seen { kind, xs: hs(&xs), u: u.clone(), f: bits(&f), ..Seen::default() };
            let dev = &devs[d];
            let r;
            let marks: Vec<Vec<f32>>;
            match kind {
                0 => {
                    outs.truncate(n);
                    let mut o: Vec<&mut Tensor> = outs.iter_mut().collect();
                    want.out = o.iter().map(|y| &**y as *const Tensor as *const u8 as usize).collect();
                    r = guarded(|| dev.call_fw_impl(name, &xs, &u, &f, &mut o));
                    marks = outs.iter().map(|o| o.to_vec()).collect();
                }
                1 => {
                    let mut o = vec![u32::MAX; n];
                    want.out = vec![n];
                    r = guarded(|| dev.call_fw_u32_impl(name, &xs, &u, &f, &mut o));
                    marks = o.iter().map(|&x| vec![if x == u32::MAX { -1.0 } else { x as f32 }]).collect();
                }
                2 => {
                    let mut o = vec![-1.0; n];
                    want.out = vec![n];
                    r = guarded(|| dev.call_fw_f32_impl(name, &xs, &u, &f, &mut o));
                    marks = o.iter().map(|&x| vec![x]).collect();
                }
                _ => {
                    outs.truncate(1);
                    want.out = vec![&outs[0] as *const Tensor as *const u8 as usize];
                    want.ys = hs(&ys);
                    want.gys = hs(&gys);
                    r = guarded(|| dev.call_bw_impl(name, &xs, &ys, &gys, &u, &f, &mut outs[0]));
                    marks = outs.iter().map(|o| o.to_vec()).collect();
                }
            }
            let seen: Vec<Seen> = log.lock().unwrap().drain(..).collect();
            match table[d].get(&(kind, name)) {
                None => {
                    if r.is_ok() {
                        return Err(format!("{:?} of kind {} was never registered on device {}, but the call was accepted", name, kind, d));
                    }
                    if !seen.is_empty() {
                        return Err(format!("{:?} was never registered, but kernel #{} ran", name, seen[0].id));
                    }
                    if marks.iter().flatten().any(|&x| x != -1.0) {
                        return Err("a refused call wrote results".into());
                    }
                }
                Some(&id) => {
                    calls += 1;
                    r?;
                    want.id = id;
                    if seen != [want.clone()] {
                        return Err(format!("expected one call {:?}, the kernels saw {:?}", want, seen));
                    }
                    for (i, m) in marks.iter().enumerate() {
                        if m.iter().any(|&x| x != (id * 10 + i as u32) as f32) {
                            return Err(format!("result {} does not come from kernel #{}: {:?}", i, id, m));
                        }
                    }
                }
            }
        }
        let g = gone.lock().unwrap().clone();
        if g != dead {
            return Err(format!("kernels given up: {:?}, expected {:?}", g, dead));
        }
        for (i, d) in devs.iter().enumerate() {
            if d.identifier() != format!("device {}", i) {
                return Err(format!("device {} identifies itself as {:?}", i, d.identifier()));
            }
        }
    }
    if replaced >= 1 && calls >= 2 {
        ctx.nontrivial();
    }
    drop(devs);
    let mut g = gone.lock().unwrap().clone();
    g.sort();
    if g != (1..=next).collect::<Vec<_>>() {
        return Err(format!("kernels given up in the end: {:?}, registered {}", g, next));
    }
    Ok(())
}

/// the kernel behind a function that is a single kernel: name, operand order, data
fn direct(op: &Op, a: &[Sh]) -> Option<(&'static str, Vec<usize>, Vec<u32>, Vec<f32>)> {
    let two = |both: &'static str, l: &'static str, r: &'static str| {
        if a[0].is_scalar() {
            (l, vec![1, 0], vec![], vec![])
        } else if a[1].is_scalar() {
            (r, vec![0, 1], vec![], vec![])
        } else {
            (both, vec![0, 1], vec![], vec![])
        }
    };
    let x = |n: &'static str| (n, vec![0], vec![], vec![]);
    let xk = |n: &'static str, k: f32| (n, vec![0], vec![], vec![k]);
    let xd = |n: &'static str, d: Vec<u32>| (n, vec![0], d, vec![]);
    let all: Vec<usize> = (0..a.len()).collect();
    Some(match op {
        Op::Neg(_) => x("neg_fw_impl"),
        Op::Add(_) => two("add_fw_impl", "add_scalar_fw_impl", "add_scalar_fw_impl"),
        Op::Sub(_) => two("sub_fw_impl", "sub_scalar_l_fw_impl", "sub_scalar_r_fw_impl"),
        Op::Mul(_) => two("mul_fw_impl", "mul_scalar_fw_impl", "mul_scalar_fw_impl"),
        Op::Div(_) => two("div_fw_impl", "div_scalar_l_fw_impl", "div_scalar_r_fw_impl"),
        Op::Pow(_) => two("powf_fw_impl", "powf_scalar_l_fw_impl", "powf_scalar_r_fw_impl"),
        Op::AddC(k, _) => xk("add_const_fw_impl", *k),
        Op::SubCL(k, _) => xk("sub_const_l_fw_impl", *k),
        Op::SubCR(k, _) => xk("sub_const_r_fw_impl", *k),
        Op::MulC(k, _) => xk("mul_const_fw_impl", *k),
        Op::DivCL(k, _) => xk("div_const_l_fw_impl", *k),
        Op::DivCR(k, _) => xk("div_const_r_fw_impl", *k),
        Op::PowCL(k) => xk("powf_const_l_fw_impl", *k),
        Op::Powf(k) => xk("powf_const_r_fw_impl", *k),
        Op::Powi(n) => xd("powi_fw_impl", vec![*n as u32]),
        Op::Sqrt => x("sqrt_fw_impl"),
        Op::Abs => x("abs_fw_impl"),
        Op::Sin => x("sin_fw_impl"),
        Op::Cos => x("cos_fw_impl"),
        Op::Tan => x("tan_fw_impl"),
        Op::Exp => x("exp_fw_impl"),
        Op::Ln => x("ln_fw_impl"),
        Op::Tanh => x("tanh_fw_impl"),
        Op::Sigmoid => x("sigmoid_fw_impl"),
        Op::Softplus => x("softplus_fw_impl"),
        Op::Prelu(k) => xk("prelu_fw_impl", *k),
        Op::Elu(k) => xk("elu_fw_impl", *k),
        Op::Sum(d) => xd("sum_fw_impl", vec![*d]),
        Op::Max(d) => xd("max_fw_impl", vec![*d]),
        Op::Min(d) => xd("min_fw_impl", vec![*d]),
        Op::Logsumexp(d) => xd("logsumexp_fw_impl", vec![*d]),
        Op::Broadcast(d, n) => xd("broadcast_fw_impl", vec![*d, *n]),
        Op::Matmul(_) => ("matmul_fw_impl", vec![0, 1], vec![], vec![]),
        Op::Transpose => x("transpose_fw_impl"),
        Op::TriL(k) => xd("triangular_l_fw_impl", vec![*k]),
        Op::TriU(k) => xd("triangular_u_fw_impl", vec![*k]),
        Op::Slice(d, lo, _) => xd("slice_fw_impl", vec![*d, *lo]),
        Op::Pick(ids, d) => xd("pick_fw_impl", std::iter::once(*d).chain(ids.iter().copied()).collect()),
        Op::Concat(d) => ("concat_fw_impl", all, vec![*d], vec![]),
        Op::BatchSum => x("batch_sum_fw_impl"),
        Op::BatchSlice(lo, _) => xd("batch_slice_fw_impl", vec![*lo]),
        Op::BatchPick(ids) => xd("batch_pick_fw_impl", ids.clone()),
        Op::BatchConcat => ("batch_concat_fw_impl", all, vec![], vec![]),
        _ => return None,
    })
}

/// copies, resets and reading out are not what a function computes with
fn service(n: &str) -> bool {
    n.starts_with("reset_tensor") || n == "tensor_to_vector_impl" || n == "identity_impl"
}

fn drain(st: &Shared) -> Vec<CallRec> {
    with_state(st, |x| x.calls.drain(..).collect())
}

/// forwards, then fills the results with one value
struct Over {
    name: String,
    n: Arc<Mutex<u32>>,
}
impl Over {
    fn hit(&self) {
        *self.n.lock().unwrap() += 1;
    }
}
const MARK: f32 = 40.5;
impl FunctionFwImpl for Over {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.hit();
        inner().call_fw_impl(&self.name, xs, u, f, ys);
        if !service(&self.name) {
            ys.iter_mut().for_each(|y| put(y, MARK));
        }
    }
}
impl FunctionBwImpl for Over {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.hit();
        inner().call_bw_impl(&self.name, xs, ys, gys, u, f, gx);
        put(gx, MARK);
    }
}

fn functions(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let call = gen::call(&mut s, kind, Lim { depth: 4, vol: 24, batch: 3 }, true);
    let data = call.data();
    let shapes: Vec<Sh> = call.args.iter().map(|a| a.0.clone()).collect();
    let by_ref = match &call.op {
        Op::Neg(v) | Op::Pow(v) | Op::Matmul(v) => v & 1 == 0,
        Op::Add(v) | Op::Sub(v) | Op::Mul(v) | Op::Div(v) => v & 3 == 0,
        Op::AddC(_, v) | Op::SubCL(_, v) | Op::SubCR(_, v) | Op::MulC(_, v) | Op::DivCL(_, v) | Op::DivCR(_, v) => v & 1 == 0 || v & 3 == 2,
        _ => true,
    };
    ctx.desc(|| call.show());
    ctx.label(call.op.name());
    ctx.nontrivial();
    let want = direct(&call.op, &shapes);
    let (mut dev, st) = rec_device(false);
    let (other, ost) = rec_device(false);
    for x in [&st, &ost] {
        with_state(x, |x| x.log = true);
    }
    let on = |d: &Device<'static>| -> &'static Device<'static> { unsafe { &*(d as *const Device<'static>) } };
    let stranger: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), v)| mk(on(&other), sh, v)).collect();
    drain(&ost);
    let judge = |what: &str, log: &[CallRec], xh: &[usize], yh: &[usize], ysh: &[Sh], exact: bool| -> Result<(), String> {
        let Some((name, order, u, f)) = &want else {
            // composed of others: the results come from kernels of this device
            for y in yh {
                if !log.iter().any(|c| c.outs.contains(y)) {
                    return Err(format!("{}: a result was not written by any kernel of the device", what));
                }
            }
            return Ok(());
        };
        let work: Vec<&CallRec> = log.iter().filter(|c| !service(&c.name)).collect();
        if work.len() != 1 || work[0].name != *name {
            return Err(format!("{}: ran {:?}, expected {} once", what, work.iter().map(|c| &c.name).collect::<Vec<_>>(), name));
        }
        let c = work[0];
        let commute = matches!(call.op, Op::Add(_) | Op::Mul(_));
        let osh: Vec<Sh> = order.iter().map(|&i| shapes[i].clone()).collect();
        let oh: Vec<usize> = order.iter().map(|&i| xh[i]).collect();
        let ok = c.x_shapes == osh && (!exact || c.xs == oh) || commute && c.x_shapes.iter().rev().cloned().collect::<Vec<_>>() == osh;
        if !ok {
            return Err(format!("{}: {} was given other operands: {:?}", what, name, c.x_shapes.iter().map(|s| s.show()).collect::<Vec<_>>()));
        }
        // further data may follow what the kernel is documented to get
        if !c.u32s.starts_with(u) || bits(&c.f32s) != bits(f) {
            return Err(format!("{}: {} was given {:?} {:?}, expected {:?} {:?}", what, name, c.u32s, c.f32s, u, f));
        }
        if c.outs != yh || c.out_shapes != ysh {
            return Err(format!("{}: {} wrote elsewhere than into the result", what, name));
        }
        Ok(())
    };
    // eager
    let (names, plain) = {
        let d = on(&dev);
        let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), v)| mk(d, sh, v)).collect();
        drain(&st);
        let ys = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
        let log = drain(&st);
        let xh: Vec<usize> = xs.iter().map(handle_of).collect();
        let yh: Vec<usize> = ys.iter().map(handle_of).collect();
        let ysh: Vec<Sh> = ys.iter().map(|y| from_shape(y.shape())).collect();
        judge("tensors", &log, &xh, &yh, &ysh, by_ref)?;
        if ys.iter().any(|y| !std::ptr::eq(y.device(), d)) {
            return Err("the result is on another device".into());
        }
        let plain: Vec<Vec<f32>> = ys.iter().map(|y| y.to_vec()).collect();
        (log.into_iter().map(|c| c.name).collect::<Vec<_>>(), plain)
    };
    // graph, forward and backward
    let (bnames, grads) = {
        let d = on(&dev);
        let xs: Vec<Node> = call.args.iter().zip(&data).map(|((sh, _), v)| Node::from(mk(d, sh, v))).collect();
        let ys = apply_node(&call.op, &xs.iter().collect::<Vec<_>>());
        drain(&st);
        ys.iter().for_each(|y| y.forward());
        let log = drain(&st);
        if call.op.name() != "PowCL" && want.is_some() {
            let work: Vec<&String> = log.iter().map(|c| &c.name).filter(|n| !service(n)).collect();
            let name = want.as_ref().unwrap().0;
            // owned variants pass through a helper node
            if work != [name] {
                return Err(format!("graph: ran {:?}, expected {} once", work, name));
            }
        }
        ys[0].backward();
        let log = drain(&st);
        if by_ref {
            if let Some((fw, order, _, _)) = &want {
                let stem = fw.trim_end_matches("_fw_impl");
                let xh: Vec<usize> = order.iter().map(|&i| handle_of(&xs[i].inner_value())).collect();
                let gh: Vec<usize> = order.iter().map(|&i| handle_of(&xs[i].inner_gradient())).collect();
                for c in log.iter().filter(|c| c.name.starts_with(stem) && c.name[stem.len()..].starts_with("_bw")) {
                    let to = if c.name.ends_with("_bw_b_impl") { 1 } else { 0 };
                    let ok = (c.xs.is_empty() || c.xs == xh)
                        && (c.ys.is_empty() || c.ys == [handle_of(&ys[0].inner_value())])
                        && c.gys == [handle_of(&ys[0].inner_gradient())]
                        && c.outs == [gh[to]];
                    if !ok {
                        return Err(format!("graph: {} was not given operands, result, its gradient and the gradient of operand {}", c.name, to));
                    }
                }
            }
        }
        (log.into_iter().map(|c| c.name).collect::<Vec<_>>(), xs.iter().map(|x| if x.inner_gradient().valid() { x.inner_gradient().to_vec() } else { vec![] }).collect::<Vec<_>>())
    };
    // one kernel replaced
    let mut pool: Vec<&String> = names.iter().chain(&bnames).filter(|n| !service(n)).collect();
    let all = kernel_names();
    let used = s.chance(2, 3) && !pool.is_empty();
    let k: String = if used { s.pick(&pool).to_string() } else { s.pick(all).clone() };
    pool.clear();
    if service(&k) {
        return Ok(());
    }
    ctx.desc(|| format!("{} replaced", k));
    let n: Arc<Mutex<u32>> = Default::default();
    // on one device only
    dev.register_fw_impl(&k, Over { name: k.clone(), n: n.clone() });
    dev.register_bw_impl(&k, Over { name: k.clone(), n: n.clone() });
    let count = |v: &[String]| v.iter().filter(|x| **x == k).count() as u32;
    let take = || std::mem::take(&mut *n.lock().unwrap());
    {
        let d = on(&dev);
        let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), v)| mk(d, sh, v)).collect();
        let ys = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
        let hits = take();
        if hits != count(&names) {
            return Err(format!("tensors: the replaced {} ran {} times, before {}", k, hits, count(&names)));
        }
        for (y, p) in ys.iter().zip(&plain) {
            if hits == 0 {
                check_bits(&format!("result although {} is not used", k), &y.to_vec(), p)?;
            } else if want.is_some() {
                check_bits(&format!("result through the replaced {}", k), &y.to_vec(), &vec![MARK; p.len()])?;
            }
        }
        let ns: Vec<Node> = xs.into_iter().map(Node::from).collect();
        let ys = apply_node(&call.op, &ns.iter().collect::<Vec<_>>());
        ys.iter().for_each(|y| y.forward());
        let fhits = take();
        ys[0].backward();
        let hits = take();
        if hits != count(&bnames) {
            return Err(format!("graph: the replaced {} ran {} times in backward, before {}", k, hits, count(&bnames)));
        }
        if fhits == 0 && hits == 0 {
            for (x, g) in ns.iter().zip(&grads) {
                let now = if x.inner_gradient().valid() { x.inner_gradient().to_vec() } else { vec![] };
                check_bits(&format!("gradient although {} is not used", k), &now, g)?;
            }
        }
        ctx.label(if hits + fhits > 0 { "replaced kernel used" } else { "replaced kernel not used" });
    }
    // the other device has not noticed anything
    if !drain(&ost).is_empty() {
        return Err("work on one device ran kernels of another".into());
    }
    let ys = apply_tensor(&call.op, &stranger.iter().collect::<Vec<_>>());
    for (y, p) in ys.iter().zip(&plain) {
        check_bits("result on the other device", &y.to_vec(), p)?;
    }
    if take() != 0 {
        return Err("a kernel registered on one device ran for another".into());
    }
    drop((ys, stranger));
    drop((dev, other));
    settled(&st)?;
    settled(&ost)
}

type Sig = (String, Vec<Sh>, Vec<u32>, Vec<u32>, Vec<Sh>);

fn sigs(log: Vec<CallRec>) -> Vec<Sig> {
    let mut v: Vec<Sig> = log.into_iter().map(|c| (c.name, c.x_shapes, c.u32s, bits(&c.f32s), c.out_shapes)).collect();
    v.sort_by_key(|x| format!("{:?}", x));
    v
}

/// several devices at work in turns: each runs what it would run alone
fn isolation(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &Opts { max_size: 100, max_err: 1e-1, smooth: true, ..Opts::DEFAULT });
    let p = &b.prog;
    let mut s = Src::new(&case.head[24..]);
    let nd = s.range(2, 3) as usize;
    let lazy: Vec<bool> = (0..nd).map(|_| s.bool()).collect();
    ctx.desc(|| format!("{} devices, graphs {:?}, {}", nd, lazy, p.show()));
    if p.steps.len() >= 2 {
        ctx.nontrivial();
    }
    let mut alone = vec![];
    let work = |dev: &'static Device<'static>, lazy: bool| {
        if lazy {
            let v = build_nodes(dev, p);
            v.last().unwrap().backward();
        } else {
            drop(run_tensors(dev, p));
        }
    };
    for i in 0..nd {
        let (d, st) = rec_device(false);
        let raw = Box::into_raw(Box::new(d));
        with_state(&st, |x| x.log = true);
        work(unsafe { &*raw }, lazy[i]);
        drop(unsafe { Box::from_raw(raw) });
        settled(&st)?;
        alone.push(sigs(drain(&st)));
    }
    let made: Vec<_> = (0..nd)
        .map(|_| {
            let (d, st) = rec_device(false);
            with_state(&st, |x| x.log = true);
            (Box::into_raw(Box::new(d)), st)
        })
        .collect();
    {
        // graphs of all devices in existence together
        let nodes: Vec<Vec<Node<'static, 'static>>> = (0..nd).map(|i| if lazy[i] { build_nodes(unsafe { &*made[i].0 }, p) } else { vec![] }).collect();
        let turn = s.below(nd as u32) as usize;
        for k in 0..nd {
            let i = (k + turn) % nd;
            let before: Vec<u64> = made.iter().map(|m| with_state(&m.1, |x| x.requested)).collect();
            if lazy[i] {
                nodes[i].last().unwrap().backward();
            } else {
                drop(run_tensors(unsafe { &*made[i].0 }, p));
            }
            for (j, m) in made.iter().enumerate() {
                if j != i && with_state(&m.1, |x| x.requested) != before[j] {
                    return Err(format!("work on device {} took memory from device {}", i, j));
                }
            }
        }
    }
    for (i, (raw, st)) in made.into_iter().enumerate() {
        drop(unsafe { Box::from_raw(raw) });
        settled(&st)?;
        let got = sigs(drain(&st));
        if got != alone[i] {
            let d = got.iter().zip(&alone[i]).find(|(a, b)| a != b);
            return Err(format!("device {} of {} ran {} kernels, alone {}; first difference {:?}", i, nd, got.len(), alone[i].len(), d));
        }
    }
    Ok(())
}

/// other parts that compute on behalf of a tensor or parameter use its device
fn helpers(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (dev, st) = rec_device(false);
    let (other, ost) = rec_device(false);
    let d: &'static Device<'static> = unsafe { &*(&dev as *const _) };
    for x in [&st, &ost] {
        with_state(x, |x| x.log = true);
    }
    let sh = gen::shape(&mut s, Lim { depth: 3, vol: 20, batch: 1 });
    let mat = gen::matrix(&mut s, Lim { depth: 2, vol: 20, batch: 1 });
    let which = s.below(9);
    let k = s.real(0.1, 2.0);
    ctx.desc(|| format!("helper {} on {} with {}", which, sh.show(), k));
    ctx.label(format!("helper {}", which));
    ctx.nontrivial();
    use pu::initializers as I;
    let shape = to_shape(&sh);
    let expect = |want: &[(&str, Vec<f32>)], log: &[CallRec]| -> Result<(), String> {
        for (n, f) in want {
            let hits: Vec<&CallRec> = log.iter().filter(|c| c.name == *n).collect();
            if hits.len() != 1 {
                return Err(format!("{} ran {} times, expected once", n, hits.len()));
            }
            if !f.is_empty() && bits(&hits[0].f32s) != bits(f) {
                return Err(format!("{} was given {:?}, expected {:?}", n, hits[0].f32s, f));
            }
        }
        Ok(())
    };
    match which {
        0 => {
            drop(d.new_parameter(shape, &I::Uniform::new(-k, k)));
            expect(&[("random_uniform_impl", vec![-k, k])], &drain(&st))?;
        }
        1 => {
            drop(d.new_parameter(shape, &I::Normal::new(k, 0.5)));
            expect(&[("random_normal_impl", vec![k, 0.5])], &drain(&st))?;
        }
        2 => {
            drop(d.new_parameter(to_shape(&mat), &I::XavierUniform::new(k)));
            expect(&[("random_uniform_impl", vec![])], &drain(&st))?;
        }
        3 => {
            let p = 0.25 + k / 8.0;
            drop(d.random_bernoulli(shape, p));
            expect(&[("random_bernoulli_impl", vec![p])], &drain(&st))?;
        }
        4 => {
            let x = d.new_tensor_by_constant(shape, 1.0);
            drain(&st);
            drop(x.dropout(0.25, true));
            expect(&[("random_bernoulli_impl", vec![])], &drain(&st))?;
        }
        5 => {
            let x = d.new_tensor_by_constant(shape, 1.0);
            let dim = s.below(3);
            drain(&st);
            let _ = (x.argmax(dim), x.argmin(dim), x.argsort(dim));
            let log = drain(&st);
            expect(&[("argmax_impl", vec![]), ("argmin_impl", vec![]), ("argsort_impl", vec![])], &log)?;
            if log.iter().any(|c| c.u32s != [dim]) {
                return Err(format!("dimension {} arrived as {:?}", dim, log.iter().map(|c| &c.u32s).collect::<Vec<_>>()));
            }
        }
        6 => {
            let mut x = d.new_tensor_by_constant(shape, 1.0);
            let y = d.new_tensor_by_constant(shape, 2.0);
            drain(&st);
            x += &y;
            x -= &y;
            x *= k;
            expect(&[("add_assign_impl", vec![]), ("sub_assign_impl", vec![]), ("mul_assign_const_impl", vec![k])], &drain(&st))?;
        }
        7 => {
            let mut x = d.new_tensor_by_constant(shape, 1.0);
            let y = d.copy_tensor(&x);
            drain(&st);
            x.reset(k);
            d.reset_tensor_by_slice(&mut x, &vec![k; sh.size()]);
            d.reset_tensor_by_tensor(&mut x, &y);
            let log = drain(&st);
            expect(&[("reset_tensor_impl", vec![k]), ("reset_tensor_by_slice_impl", vec![k; sh.size()]), ("reset_tensor_by_tensor_impl", vec![])], &log)?;
        }
        _ => {
            let mut p = d.new_parameter(shape, &I::Constant::new(k));
            let mut o = pu::optimizers::Adam::new(0.1, 0.9, 0.999, 1e-8);
            o.configure_parameter(&mut p);
            drain(&st);
            (Node::from(&mut p) * 2.0).backward();
            o.update_parameters(&mut [&mut p]);
            let log = drain(&st);
            let touched: Vec<usize> = log.iter().flat_map(|c| c.outs.clone()).collect();
            for (n, t) in [("value", handle_of(&p.value)), ("gradient", handle_of(&p.gradient))] {
                if !touched.contains(&t) {
                    return Err(format!("the update did not write the {} through the parameter's device", n));
                }
            }
        }
    }
    if !drain(&ost).is_empty() || with_state(&ost, |x| x.requested) != 0 {
        return Err("another device was used".into());
    }
    drop((dev, other));
    settled(&st)?;
    settled(&ost)
}

/// the device's backward functions run the kernel of their name, with everything they are given
fn backward(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim { depth: 4, vol: 24, batch: 3 };
    let (dev, st) = rec_device(false);
    with_state(&st, |x| x.log = true);
    let d: &Device<'static> = unsafe { &*(&dev as *const Device<'static>) };
    let fam = s.weighted(&[4, 4, 1, 1, 1, 1, 1, 1, 1, 1]);
    let mut a = if fam == 2 || fam == 4 { gen::matrix(&mut s, l) } else { gen::shape(&mut s, l) };
    let mut b = a.clone();
    let dim = s.below(4);
    let n = s.range(1, 4);
    let which = s.word() as usize;
    let bit = s.bool();
    let op = match fam {
        1 => {
            b = a.with_batch(gen::compat_batch(&mut s, a.batch, 3));
            Op::Add(0)
        }
        2 => {
            b = Sh::new(&[a.d(1), n], gen::compat_batch(&mut s, a.batch, 3));
            Op::Matmul(0)
        }
        3 => Op::Max(dim),
        4 => Op::Transpose,
        5 => {
            a = Sh::new(&[n, n], a.batch);
            Op::TriL(1)
        }
        6 => {
            let lo = s.below(a.d(dim));
            Op::Slice(dim, lo, s.range(lo + 1, a.d(dim)))
        }
        7 => Op::Pick(gen::pick_ids(&mut s, &a, dim, 3), dim),
        8 => {
            let lo = s.below(a.batch);
            Op::BatchSlice(lo, s.range(lo + 1, a.batch))
        }
        9 => Op::BatchPick((0..n).map(|_| s.below(a.batch)).collect()),
        _ => Op::Neg(0),
    };
    let ysh = if fam == 1 || fam == 2 { op.shapes(&[&a, &b]) } else { op.shapes(&[&a]) }.unwrap().pop().unwrap();
    let t = |sh: &Sh, k: f32| d.new_tensor_by_constant(to_shape(sh), k);
    let (ta, tb, y, gy) = (t(&a, 0.5), t(&b, 0.75), t(&ysh, 0.25), t(&ysh, 2.0));
    let first = match fam {
        1 => BINARY[which % BINARY.len()].1,
        2 => bit,
        _ => true,
    };
    let mut g = t(if first { &a } else { &b }, 1.0);
    drain(&st);
    let none: (Vec<u32>, Vec<f32>) = (vec![], vec![]);
    let (name, (u, f)): (String, (Vec<u32>, Vec<f32>)) = match (fam, &op) {
        (1, _) => {
            let e = &BINARY[which % BINARY.len()];
            e.2(d, &ta, &tb, &y, &gy, &mut g);
            (e.0.into(), none)
        }
        (2, _) => {
            if bit {
                d.matmul_bw_a(&ta, &tb, &y, &gy, &mut g);
            } else {
                d.matmul_bw_b(&ta, &tb, &y, &gy, &mut g);
            }
            (if bit { "matmul_bw_a" } else { "matmul_bw_b" }.into(), none)
        }
        (3, _) => {
            if bit {
                d.max_bw(&ta, &y, &gy, dim, &mut g);
            } else {
                d.min_bw(&ta, &y, &gy, dim, &mut g);
            }
            (if bit { "max_bw" } else { "min_bw" }.into(), (vec![dim], vec![]))
        }
        (4, _) => {
            d.transpose_bw(&ta, &y, &gy, &mut g);
            ("transpose_bw".into(), none)
        }
        (5, _) => {
            if bit {
                d.triangular_l_bw(&ta, &y, &gy, dim, &mut g);
            } else {
                d.triangular_u_bw(&ta, &y, &gy, dim, &mut g);
            }
            (if bit { "triangular_l_bw" } else { "triangular_u_bw" }.into(), (vec![dim], vec![]))
        }
        (_, Op::Slice(dim, lo, _)) => {
            d.slice_bw(&gy, *dim, *lo, &mut g);
            ("slice_bw".into(), (vec![*dim, *lo], vec![]))
        }
        (_, Op::Pick(ids, dim)) => {
            d.pick_bw(&gy, ids, *dim, &mut g);
            ("pick_bw".into(), (std::iter::once(*dim).chain(ids.iter().copied()).collect(), vec![]))
        }
        (_, Op::BatchSlice(lo, _)) => {
            d.batch_slice_bw(&gy, *lo, &mut g);
            ("batch_slice_bw".into(), (vec![*lo], vec![]))
        }
        (_, Op::BatchPick(ids)) => {
            d.batch_pick_bw(&gy, ids, &mut g);
            ("batch_pick_bw".into(), (ids.clone(), vec![]))
        }
        _ => {
            let e = &UNARY[which % UNARY.len()];
            e.1(d, &ta, &y, &gy, &mut g);
            let k = match e.0 {
                "powi_bw" => (vec![3], vec![]),
                x if x.contains("const") || x == "prelu_bw" || x == "elu_bw" => (vec![], vec![2.0]),
                _ => none,
            };
            (e.0.into(), k)
        }
    };
    ctx.desc(|| format!("{} on {} {}", name, a.show(), b.show()));
    ctx.label(&name);
    ctx.nontrivial();
    let log = drain(&st);
    let name = name + "_impl";
    let work: Vec<&CallRec> = log.iter().filter(|c| !service(&c.name)).collect();
    // the kernel may itself use functions of the device
    if work.is_empty() || work[0].name != name || work.iter().filter(|c| c.name == name).count() != 1 {
        return Err(format!("device call ran {:?}, expected {} once", work.iter().map(|c| &c.name).collect::<Vec<_>>(), name));
    }
    let c = work[0];
    let two = fam == 1 || fam == 2;
    let short = fam >= 6;
    let xs: Vec<usize> = if short { vec![] } else if two { vec![handle_of(&ta), handle_of(&tb)] } else { vec![handle_of(&ta)] };
    let ys: Vec<usize> = if short { vec![] } else { vec![handle_of(&y)] };
    // further operands may be passed along where none are documented
    if !(c.xs == xs || short) || !(c.ys == ys || short) || c.gys != [handle_of(&gy)] || c.outs != [handle_of(&g)] {
        return Err(format!("{} was given other tensors than the caller's", name));
    }
    if !c.u32s.starts_with(&u) || bits(&c.f32s) != bits(&f) {
        return Err(format!("{} was given {:?} {:?}, expected {:?} {:?}", name, c.u32s, c.f32s, u, f));
    }
    drop((ta, tb, y, gy, g));
    drop(dev);
    settled(&st)
}

fn main() {
    let _ = Ordering::Acquire;
    run_main(Check {
        id: "C28",
        rule: "registry: up to 40 registrations and calls of four kinds under 13 short names (equal up to case and blanks, empty, non-ASCII) and 8 long names that differ in one place on up to three devices, against a reference table; every call is seen once by the kernel registered last, with exactly the operands and data, or refused; replaced kernels are given up at once, all others with the device; non-trivial: a replacement and two accepted calls. functions: a generated call, eager and as a graph: single-kernel functions run exactly that kernel once with the documented operands and data, the result's buffer is what it wrote; then one kernel is replaced on that device: it runs as often as the original, results change exactly if it is used; a second device with the same operands notices nothing. backward: every backward function of the device runs the kernel of its name once, on the tensors and data it was given; every case counts. isolation: random programs on two or three devices in turns run the same kernels as alone. helpers: initialisers, random, dropout, arg-functions, in-place arithmetic, resets and optimizers go through the device of their target.",
        assumptions: &["which kernels a composed function (softmax, cross entropy, means, normalisation) uses is not prescribed, only that it is the same every time"],
        subs: vec![
            Sub { name: "registry", head: 6, steps: (1, 40), step_len: 30, quick: 150_000, thorough: 6_000_000, run: registry },
            Sub { name: "functions", head: 60, steps: (0, 0), step_len: 0, quick: 75_000, thorough: 3_000_000, run: functions },
            Sub { name: "isolation", head: 80, steps: (1, 10), step_len: 36, quick: 10_000, thorough: 400_000, run: isolation },
            Sub { name: "backward", head: 50, steps: (0, 0), step_len: 0, quick: 30_000, thorough: 1_200_000, run: backward },
            Sub { name: "helpers", head: 30, steps: (0, 0), step_len: 0, quick: 20_000, thorough: 800_000, run: helpers },
        ],
    })
}
