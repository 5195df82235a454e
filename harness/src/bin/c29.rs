//! Histories of valid work with refused calls at any point.
use harness::mutate::*;
use harness::*;

type T = Tensor<'static>;

struct Live {
    t: Box<T>,
    dev: usize,
    /// contents; None: no memory, or on the host
    v: Option<Vec<f32>>,
    sh: Sh,
}

struct World {
    raw: Vec<*mut Device<'static>>,
    st: Vec<Shared>,
    live: Vec<Live>,
    refused: u32,
    worked: u32,
    kind: usize,
    seen: std::collections::BTreeSet<String>,
}

impl World {
    fn dev(&self, i: usize) -> &'static Device<'static> {
        unsafe { &*self.raw[i] }
    }
    fn any(&self, s: &mut Src) -> Option<usize> {
        if self.live.is_empty() {
            None
        } else {
            Some(s.index(self.live.len()))
        }
    }
    fn with_memory(&self, s: &mut Src) -> Option<usize> {
        let m: Vec<usize> = (0..self.live.len()).filter(|&i| self.live[i].v.is_some()).collect();
        if m.is_empty() {
            None
        } else {
            Some(*s.pick(&m))
        }
    }
    fn add(&mut self, d: usize, sh: &Sh, s: &mut Src) -> usize {
        let v = Vals { mode: Mode::Ints(9), seed: s.word() | 1, exp: 0 }.fill(sh.size());
        let t = mk(self.dev(d), sh, &v);
        self.live.push(Live { t: Box::new(t), dev: d, v: Some(v), sh: sh.clone() });
        self.live.len() - 1
    }
    /// a live tensor of that shape, or a new one
    fn find(&mut self, d: usize, sh: &Sh, s: &mut Src) -> usize {
        let m: Vec<usize> = (0..self.live.len()).filter(|&i| self.live[i].v.is_some() && self.live[i].dev == d && self.live[i].sh == *sh).collect();
        if m.is_empty() || s.chance(1, 3) {
            self.add(d, sh, s)
        } else {
            *s.pick(&m)
        }
    }
    /// the call is over: everything but `target` is as before; a refused call leaves that, too
    fn after(&mut self, what: &str, r: &Result<(), String>, target: Option<usize>) -> Result<(), String> {
        match r {
            Ok(()) => self.worked += 1,
            Err(_) => self.refused += 1,
        }
        let how = if r.is_ok() { "accepted" } else { "refused" };
        self.seen.insert(format!("{} {}", KINDS[self.kind], how));
        for (i, l) in self.live.iter_mut().enumerate() {
            if r.is_ok() && target == Some(i) {
                l.v = if l.t.valid() { Some(l.t.to_vec()) } else { None };
                l.sh = from_shape(l.t.shape());
                continue;
            }
            if from_shape(l.t.shape()) != l.sh {
                return Err(format!("{} ({}) changed the shape of tensor {} from {}", what, how, i, l.sh.show()));
            }
            if l.t.valid() != l.v.is_some() {
                return Err(format!("{} ({}) changed whether tensor {} has memory", what, how, i));
            }
            if let Some(v) = &l.v {
                check_bits(&format!("tensor {} after {} was {}", i, what, how), &l.t.to_vec(), v)?;
            }
        }
        for st in &self.st {
            errors(st).map_err(|e| format!("{} ({}): {}", what, how, e))?;
        }
        Ok(())
    }
}

fn long(t: &T) -> &'static T {
    // SAFETY: used within one step, during which no tensor moves
    unsafe { &*(t as *const T) }
}

/// valid work gives the right result on a device that has refused things
fn probe(w: &mut World, s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let d = s.index(w.raw.len());
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Matrix, Kind::Move, Kind::Batch];
    let kind = kinds[s.index(kinds.len())];
    let c = gen::call(s, kind, Lim::SMALL, false);
    let data = c.data();
    let mut t = Tape::new();
    let rts = leaves(&mut t, &c, &data);
    let want = c.op.eval(&mut t, &rts.iter().collect::<Vec<_>>());
    if t.bad.is_none() {
        let xs: Vec<T> = c.args.iter().zip(&data).map(|((sh, _), v)| mk(w.dev(d), sh, v)).collect();
        let ys = apply_tensor(&c.op, &xs.iter().collect::<Vec<_>>());
        for (y, r) in ys.iter().zip(&want) {
            check_tensor(&format!("later {}", c.show()), y, &t, r)?;
        }
        w.worked += 1;
    }
    let n = s.range(70, 140);
    let (u, b, g) = (
        w.dev(d).random_uniform(Shape::new(&[n], 1), -2.0, 3.0).to_vec(),
        w.dev(d).random_bernoulli(Shape::new(&[n], 1), 0.5).to_vec(),
        w.dev(d).random_normal(Shape::new(&[n], 1), 5.0, 0.5).to_vec(),
    );
    if u.iter().any(|x| !(-2.0..=3.0).contains(x)) || u.iter().all(|x| *x == u[0]) {
        return Err(format!("uniform values afterwards {:?}", &u[..8]));
    }
    if b.iter().any(|x| *x != 0.0 && *x != 1.0) || b.iter().all(|x| *x == b[0]) {
        return Err(format!("bernoulli values afterwards {:?}", &b[..8]));
    }
    if g.iter().any(|x| (x - 5.0).abs() > 6.0) || g.iter().all(|x| *x == g[0]) {
        return Err(format!("normal values afterwards {:?}", &g[..8]));
    }
    let _ = ctx;
    Ok(())
}

type Bw1 = fn(&'static Device<'static>, &T, &T, &T, &mut T);
const BW1: &[(&str, Bw1)] = &[
    ("neg_bw", |d, x, y, gy, gx| d.neg_bw(x, y, gy, gx)),
    ("sqrt_bw", |d, x, y, gy, gx| d.sqrt_bw(x, y, gy, gx)),
    ("exp_bw", |d, x, y, gy, gx| d.exp_bw(x, y, gy, gx)),
    ("tanh_bw", |d, x, y, gy, gx| d.tanh_bw(x, y, gy, gx)),
    ("powi_bw", |d, x, y, gy, gx| d.powi_bw(x, y, gy, 3, gx)),
    ("mul_const_bw", |d, x, y, gy, gx| d.mul_const_bw(x, y, gy, 2.0, gx)),
    ("elu_bw", |d, x, y, gy, gx| d.elu_bw(x, y, gy, 2.0, gx)),
    ("max_bw", |d, x, y, gy, gx| d.max_bw(x, y, gy, 0, gx)),
    ("min_bw", |d, x, y, gy, gx| d.min_bw(x, y, gy, 1, gx)),
    ("transpose_bw", |d, x, y, gy, gx| d.transpose_bw(x, y, gy, gx)),
    ("triangular_l_bw", |d, x, y, gy, gx| d.triangular_l_bw(x, y, gy, 1, gx)),
    ("triangular_u_bw", |d, x, y, gy, gx| d.triangular_u_bw(x, y, gy, 0, gx)),
    ("mul_bw_a", |d, x, y, gy, gx| d.mul_bw_a(x, y, gy, gy, gx)),
    ("mul_bw_b", |d, x, y, gy, gx| d.mul_bw_b(x, y, gy, gy, gx)),
    ("add_bw_a", |d, x, y, gy, gx| d.add_bw_a(x, y, gy, gy, gx)),
    ("div_bw_b", |d, x, y, gy, gx| d.div_bw_b(x, y, gy, gy, gx)),
    ("matmul_bw_a", |d, x, y, gy, gx| d.matmul_bw_a(x, y, gy, gy, gx)),
    ("matmul_bw_b", |d, x, y, gy, gx| d.matmul_bw_b(x, y, gy, gy, gx)),
    ("slice_bw", |d, _, _, gy, gx| d.slice_bw(gy, 0, 1, gx)),
    ("slice_bw far", |d, _, _, gy, gx| d.slice_bw(gy, 1, 2, gx)),
    ("pick_bw", |d, _, _, gy, gx| d.pick_bw(gy, &[0, 1], 0, gx)),
    ("pick_bw far", |d, _, _, gy, gx| d.pick_bw(gy, &[5], 0, gx)),
    ("batch_slice_bw", |d, _, _, gy, gx| d.batch_slice_bw(gy, 1, gx)),
    ("batch_pick_bw", |d, _, _, gy, gx| d.batch_pick_bw(gy, &[0, 2], gx)),
];

const KINDS: &[&str] = &[
    "new", "operation", "operation on any tensors", "in place", "reset", "lifecycle", "random", "gradient", "unknown kernel",
    "impossible shape", "failing kernel", "parameter", "damaged file", "host tensor", "drop",
];

fn step(w: &mut World, s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let nd = w.raw.len();
    let d = s.index(nd);
    let k = s.weighted(&[3, 10, 8, 8, 6, 6, 5, 8, 2, 2, 6, 2, 3, 3, 4]);
    w.kind = k;
    match k {
        0 => {
            let sh = gen::shape(s, Lim { depth: 3, vol: 20, batch: 3 });
            ctx.desc(|| format!("new {}", sh.show()));
            w.add(d, &sh, s);
        }
        1 | 2 => {
            // an operation, often ill-formed, on operands of its own shapes or on whatever there is
            let (op, a, _) = mutated(s, Lim::SMALL);
            // not claimed either way, or far too big
            if verdict(&op, &a).is_none() {
                return Ok(());
            }
            let ix: Vec<usize> = if k == 1 {
                let mut v: Vec<usize> = a.iter().map(|sh| w.find(d, sh, s)).collect();
                if nd > 1 && v.len() > 1 && s.chance(1, 6) {
                    let i = s.index(v.len());
                    v[i] = w.find(1 - d, &a[i], s);
                }
                v
            } else {
                let n = a.len();
                let mut v = vec![];
                for _ in 0..n {
                    match w.any(s) {
                        Some(i) => v.push(i),
                        None => return Ok(()),
                    }
                }
                v
            };
            // resource use of accepted calls stays small
            let refs: Vec<&Sh> = ix.iter().map(|&i| &w.live[i].sh).collect();
            if !ix.is_empty() {
                if let Some(out) = op.shapes(&refs) {
                    if out.iter().map(|x| x.size()).sum::<usize>() > 1 << 14 {
                        return Ok(());
                    }
                }
            }
            let graph = s.chance(1, 2) && !ix.is_empty();
            let name = format!("{}{:?} on tensors {:?}", if graph { "graph " } else { "" }, op, ix);
            ctx.desc(|| name.clone());
            ctx.label(op.name());
            let xs: Vec<&'static T> = ix.iter().map(|&i| long(&w.live[i].t)).collect();
            let mut keep: Vec<T> = vec![];
            let r = if graph {
                let again = s.bool();
                let r = guarded(|| {
                    let ns: Vec<Node<'static, 'static>> = xs.iter().map(|x| Node::from(*x)).collect();
                    let nr: Vec<&Node> = ns.iter().collect();
                    let side = nr[0] * 2.0;
                    let res = guarded(|| {
                        let ys = apply_node(&op, &nr);
                        for y in &ys {
                            y.to_vec();
                        }
                    });
                    // the other parts of the graph are not affected
                    if again && xs[0].valid() {
                        side.backward();
                        let want: Vec<f32> = xs[0].to_vec().iter().map(|x| x * 2.0).collect();
                        if bits(&side.to_vec()) != bits(&want) {
                            return (res, Err("another part of the graph gives a wrong value".to_string()));
                        }
                        if ns[0].inner_gradient().to_vec().iter().any(|&g| g != 2.0) {
                            return (res, Err("another part of the graph gives a wrong gradient".to_string()));
                        }
                    }
                    (res, Ok(()))
                });
                match r {
                    Ok((res, side)) => {
                        side.map_err(|e| format!("{}: {}", name, e))?;
                        res
                    }
                    Err(e) => Err(e),
                }
            } else {
                guarded(|| keep = apply_tensor(&op, &xs))
            };
            w.after(&name, &r, None)?;
            for t in keep.into_iter().take(2) {
                let v = t.to_vec();
                let sh = from_shape(t.shape());
                if v.iter().all(|x| x.is_finite()) {
                    w.live.push(Live { t: Box::new(t), dev: d, v: Some(v), sh });
                    // keep the device right when the operands were from the other one
                    let l = w.live.last_mut().unwrap();
                    l.dev = (0..nd).find(|&i| std::ptr::eq(l.t.device(), w.raw[i])).unwrap();
                }
            }
        }
        3 => {
            let (Some(i), Some(mut j)) = (w.with_memory(s), w.any(s)) else { return Ok(()) };
            if s.chance(2, 3) {
                // nearly the right shape
                let sh = other_shape(s, &w.live[i].sh);
                if sh.size() < 1000 {
                    let dd = w.live[i].dev;
                    j = w.find(dd, &sh, s);
                }
            }
            if i == j {
                return Ok(());
            }
            let which = s.below(4);
            let name = format!("tensor {} {} tensor {}", i, ["+=", "-=", "+= (owned)", "*="][which as usize], j);
            ctx.desc(|| name.clone());
            let x = long(&w.live[j].t);
            let target = if which == 3 { j } else { i };
            let y = &mut w.live[target].t;
            let r = guarded(|| match which {
                0 => **y += x,
                1 => **y -= x,
                2 => **y += x.device().copy_tensor(x),
                _ => **y *= 3.0,
            });
            w.after(&name, &r, Some(target))?;
        }
        4 => {
            let Some(i) = w.any(s) else { return Ok(()) };
            let n = w.live[i].sh.size();
            let which = s.below(4);
            let j = w.any(s).unwrap();
            let name = format!("reset of tensor {} ({} elements), kind {}, from tensor {}", i, n, which, j);
            ctx.desc(|| name.clone());
            if i == j && which == 2 {
                return Ok(());
            }
            let dd = w.dev(w.live[i].dev);
            let src = long(&w.live[j].t);
            let m = s.range(n.saturating_sub(2) as u32, n as u32 + 2) as usize;
            let y = &mut w.live[i].t;
            let r = guarded(|| match which {
                0 => y.reset(4.0),
                1 => dd.reset_tensor_by_slice(y, &vec![1.5; m]),
                2 => dd.reset_tensor_by_tensor(y, src),
                _ => {
                    let _ = y.to_float();
                }
            });
            w.after(&name, &r, Some(i))?;
        }
        5 => {
            let Some(i) = w.any(s) else { return Ok(()) };
            let Some(j) = w.any(s) else { return Ok(()) };
            let which = s.below(6);
            let name = format!("tensor {} lifecycle call {} with tensor {}", i, which, j);
            ctx.desc(|| name.clone());
            if i == j && (which == 1 || which == 2) {
                return Ok(());
            }
            let sh = other_shape(s, &w.live[i].sh);
            let dd = w.dev(d);
            let copy = if w.live[j].v.is_some() { Some(w.dev(w.live[j].dev).copy_tensor(&w.live[j].t)) } else { None };
            let was_empty = !w.live[i].t.valid();
            let y = &mut w.live[i].t;
            let r = guarded(|| match which {
                0 => {
                    y.alloc();
                    y.reset(1.0);
                }
                1 => {
                    if let Some(c) = copy {
                        y.replace(c)
                    }
                }
                2 => {
                    if let Some(c) = copy {
                        // refer demands the lifetime of the device
                        let c: &'static T = Box::leak(Box::new(c));
                        let r = guarded(|| y.refer(c));
                        if r.is_ok() {
                            // own memory again
                            let v = y.to_vec();
                            let (dev, shape) = (y.device(), y.shape());
                            **y = dev.new_tensor_by_slice(shape, &v);
                        }
                        drop(unsafe { Box::from_raw(c as *const T as *mut T) });
                        r.unwrap()
                    }
                }
                3 => y.update_shape(to_shape(&sh)),
                4 => y.move_to_device(dd),
                _ => {
                    let t = Tensor::new(dd, y.shape());
                    let _ = t.to_vec();
                }
            });
            if r.is_ok() && which == 4 {
                w.live[i].dev = d;
            }
            let _ = was_empty;
            w.after(&name, &r, Some(i))?;
        }
        6 => {
            let sh = gen::shape(s, Lim { depth: 3, vol: 20, batch: 2 });
            let which = s.below(8);
            let bad = *s.pick(&[f32::NAN, -0.5, 1.5, f32::INFINITY, -1e30]);
            let name = format!("random call {} with {} on {}", which, bad, sh.show());
            ctx.desc(|| name.clone());
            let dd = w.dev(d);
            let shape = to_shape(&sh);
            use pu::initializers as I;
            let r = guarded(|| match which {
                0 => drop(dd.random_bernoulli(shape, bad)),
                1 => drop(dd.random_normal(shape, 0.0, -1.0)),
                2 => drop(dd.random_uniform(shape, 1.0, 1.0 - bad.abs())),
                3 => drop(dd.random_uniform(shape, bad, bad)),
                4 => drop(dd.new_parameter(shape, &I::Uniform::new(2.0, 1.0))),
                5 => drop(dd.new_parameter(shape, &I::Normal::new(0.0, -2.0))),
                6 => drop(dd.new_parameter(shape, &I::XavierUniform::new(1.0))),
                _ => drop(dd.new_parameter(shape, &I::Constant::new(1.0))),
            });
            // the random source works at once
            let v = w.dev(d).random_bernoulli(Shape::new(&[80], 1), 0.5).to_vec();
            if v.iter().all(|x| *x == v[0]) || v.iter().any(|x| *x != 0.0 && *x != 1.0) {
                return Err(format!("{}: the next random values are {:?}", name, &v[..6]));
            }
            w.after(&name, &r, None)?;
        }
        7 => {
            // gradients added by hand, with operands that rarely fit
            let f = s.index(BW1.len());
            let Some(g) = w.with_memory(s) else { return Ok(()) };
            let base = w.live[g].sh.clone();
            let dd = w.live[g].dev;
            let mut ix = vec![];
            for _ in 0..3 {
                let i = match s.below(8) {
                    0 => w.with_memory(s).unwrap(),
                    1 | 2 => {
                        let sh = other_shape(s, &base);
                        if sh.size() > 500 {
                            return Ok(());
                        }
                        w.find(dd, &sh, s)
                    }
                    _ => w.find(dd, &base, s),
                };
                ix.push(i);
            }
            let target = w.add(dd, &base, s);
            let name = format!("{} with {:?} into {}", BW1[f].0, ix, target);
            ctx.desc(|| name.clone());
            let (x, y, gy) = (long(&w.live[ix[0]].t), long(&w.live[ix[1]].t), long(&w.live[ix[2]].t));
            let dev = w.dev(dd);
            let gx = &mut w.live[target].t;
            let r = guarded(|| (BW1[f].1)(dev, x, y, gy, gx));
            ctx.label(BW1[f].0);
            w.after(&name, &r, Some(target))?;
        }
        8 => {
            let Some(i) = w.with_memory(s) else { return Ok(()) };
            let which = s.below(4);
            let bad = *s.pick(&["no_such_impl", "", "add_fw_impl ", "ADD_FW_IMPL", "add_fw"]);
            let name = format!("kernel {:?} of kind {} asked for", bad, which);
            ctx.desc(|| name.clone());
            let dev = w.dev(w.live[i].dev);
            let x = long(&w.live[i].t);
            let y = &mut w.live[i].t;
            let r = guarded(|| match which {
                0 => dev.call_fw_impl(bad, &[x], &[], &[], &mut [&mut **y]),
                1 => dev.call_fw_u32_impl(bad, &[x], &[], &[], &mut [0]),
                2 => dev.call_fw_f32_impl(bad, &[x], &[], &[], &mut [0.0]),
                _ => dev.call_bw_impl(bad, &[x], &[x], &[x], &[], &[], y),
            });
            if r.is_ok() {
                return Err(format!("{}: accepted", name));
            }
            w.after(&name, &r, None)?;
        }
        9 => {
            // more memory than there can be, shapes that cannot be
            let which = s.below(5);
            let name = format!("impossible shape {}", which);
            ctx.desc(|| name.clone());
            let dev = w.dev(d);
            let r = guarded(|| match which {
                0 => drop(dev.new_tensor_by_constant(Shape::new(&[3], 1).resize_dim(0, (1 << 31) + 1), 1.0)),
                1 => drop(dev.new_tensor_by_constant(Shape::new(&[u32::MAX], 1), 1.0)),
                2 => drop(dev.new_tensor(Shape::new(&[0], 1))),
                3 => drop(dev.new_tensor(Shape::new(&[65536, 65536], 1))),
                _ => drop(dev.new_tensor(Shape::new(&[2, 2, 2, 2, 2, 2, 2, 2, 2], 1))),
            });
            if r.is_ok() {
                return Err(format!("{}: accepted", name));
            }
            w.after(&name, &r, None)?;
        }
        10 => {
            // a kernel fails in the middle of a call
            let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
            let kind = kinds[s.index(kinds.len())];
            let c = gen::call(s, kind, Lim::SMALL, true);
            let ix: Vec<usize> = c.args.iter().map(|(sh, _)| w.find(d, sh, s)).collect();
            let xs: Vec<&'static T> = ix.iter().map(|&i| long(&w.live[i].t)).collect();
            let graph = s.bool();
            let run = || {
                if graph {
                    let ns: Vec<Node<'static, 'static>> = xs.iter().map(|x| Node::from(*x)).collect();
                    let ys = apply_node(&c.op, &ns.iter().collect::<Vec<_>>());
                    for y in &ys {
                        y.backward();
                    }
                } else {
                    drop(apply_tensor(&c.op, &xs));
                }
            };
            let st = w.st[d].clone();
            with_state(&st, |x| {
                x.log = true;
                x.calls.clear();
            });
            let ok = guarded(run);
            let names: Vec<String> = with_state(&st, |x| {
                x.log = false;
                x.calls.drain(..).map(|c| c.name).collect()
            });
            if ok.is_err() || names.is_empty() {
                return w.after("a valid call", &ok, None);
            }
            let trip = s.pick(&names).clone();
            if trip == "tensor_to_vector_impl" {
                return Ok(());
            }
            let name = format!("failing {} in {}{:?} on {:?}", trip, if graph { "graph " } else { "" }, c.op, ix);
            ctx.desc(|| name.clone());
            with_state(&st, |x| x.trip = Some(trip.clone()));
            let r = guarded(run);
            with_state(&st, |x| x.trip = None);
            if r.is_ok() {
                return Err(format!("{}: the failure was swallowed", name));
            }
            if graph {
                // values of a graph in which an evaluation was refused are right, or refused again
                let ns: Vec<Node<'static, 'static>> = xs.iter().map(|x| Node::from(*x)).collect();
                let ys = apply_node(&c.op, &ns.iter().collect::<Vec<_>>());
                let zs: Vec<Node> = ys.iter().map(|y| y * 2.0).collect();
                with_state(&st, |x| x.trip = Some(trip));
                for z in &zs {
                    let _ = guarded(|| z.backward());
                }
                with_state(&st, |x| x.trip = None);
                let want: Vec<Vec<f32>> = apply_tensor(&c.op, &xs).iter().map(|y| y.to_vec()).collect();
                let double: Vec<Vec<f32>> = want.iter().map(|v| v.iter().map(|x| x * 2.0).collect()).collect();
                for (n, w) in zs.iter().zip(&double).chain(ys.iter().zip(&want)) {
                    if let Ok(v) = guarded(|| n.to_vec()) {
                        if !v.iter().zip(w).all(|(a, b)| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()) {
                            check_bits(&format!("{}: value evaluated after a refusal", name), &v, w)?;
                        }
                    }
                }
            }
            w.after(&name, &r, None)?;
            // the same call works now
            let r = guarded(run);
            if let Err(e) = &r {
                return Err(format!("{}: afterwards the same call is refused: {}", name, e));
            }
            w.after(&name, &r, None)?;
        }
        11 => {
            let Some(i) = w.with_memory(s) else { return Ok(()) };
            let which = s.below(8);
            let name = format!("parameter call {} with tensor {}", which, i);
            ctx.desc(|| name.clone());
            let l = &w.live[i];
            let dev = w.dev(l.dev);
            let (a, b) = (dev.copy_tensor(&l.t), dev.copy_tensor(&l.t));
            let batched = l.sh.batch != 1;
            if batched {
                let r = guarded(|| drop(Parameter::new(a, b)));
                if r.is_ok() {
                    return Err(format!("{}: accepted", name));
                }
                return w.after(&name, &r, None);
            }
            let v = a.to_vec();
            let mut p = Parameter::new(a, b);
            // earlier statistics, with content
            let old = s.range(0, 2);
            for k in 0..old {
                p.add_stat(["x", "y"][k as usize], p.shape());
                p.stats[["x", "y"][k as usize]].borrow_mut().reset(k as f32 + 2.0);
            }
            let other = Shape::new(&[s.range(1, 5)], 1);
            let bad = s.pick(&[-1.0f32, -1e-30, f32::NAN, f32::NEG_INFINITY]).to_owned();
            let good = *s.pick(&[0.0f32, 0.5, 2.0]);
            let mut o = pu::optimizers::SGD::new(0.1);
            o.set_weight_decay(good);
            o.set_gradient_clipping(good);
            o.set_learning_rate_scaling(good);
            let mut sh = p.shape();
            let before = sh;
            let (dim, ext) = *s.pick(&[(8u32, 1u32), (0, 0), (7, u32::MAX), (u32::MAX, 2), (5, 0)]);
            let r = guarded(|| match which {
                0 => p.add_stat("z", other),
                1 => p.add_stat("x", other),
                2 => p.move_to_device(dev),
                3 => o.set_weight_decay(bad),
                4 => o.set_gradient_clipping(bad),
                5 => o.set_learning_rate_scaling(bad),
                6 => sh.update_dim(dim, ext),
                _ => sh.update_batch(0),
            });
            let accepted = which == 0 || which == 1 && old == 0 || which == 6 && before.volume() == 1 && (dim, ext) == (7, u32::MAX);
            if r.is_ok() != accepted {
                return Err(format!("{}: {}", name, if r.is_ok() { "accepted" } else { "refused" }));
            }
            if !accepted && sh != before {
                return Err(format!("{}: the refused update left the shape {:?}, before {:?}", name, sh, before));
            }
            if [o.get_weight_decay(), o.get_gradient_clipping(), o.get_learning_rate_scaling()] != [good; 3] {
                return Err(format!("{}: a refused setting was taken over", name));
            }
            check_bits(&format!("{}: value of the parameter", name), &p.value.to_vec(), &v)?;
            check_bits(&format!("{}: gradient of the parameter", name), &p.gradient.to_vec(), &v)?;
            for k in 0..old {
                let n = ["x", "y"][k as usize];
                check_bits(&format!("{}: statistic {}", name, n), &p.stats[n].borrow().to_vec(), &vec![k as f32 + 2.0; v.len()])?;
            }
            drop(p);
            w.after(&name, &r, None)?;
        }
        12 => {
            // a damaged file
            let Some(i) = w.with_memory(s) else { return Ok(()) };
            let bytes = bincode::serialize(&*w.live[i].t).map_err(|e| e.to_string())?;
            let cut = s.index(bytes.len());
            let name = format!("tensor {} read back from {} of {} bytes", i, cut, bytes.len());
            ctx.desc(|| name.clone());
            let mut got: Option<T> = None;
            let r = guarded(|| got = Some(bincode::deserialize(&bytes[..cut]).unwrap()));
            if r.is_ok() {
                return Err(format!("{}: accepted", name));
            }
            w.after(&name, &r, None)?;
        }
        13 => {
            // tensors without memory, and on the host with the wrong number of values
            let sh = gen::shape(s, Lim { depth: 2, vol: 12, batch: 2 });
            let host = s.bool();
            ctx.desc(|| format!("{} {}", if host { "on the host" } else { "without memory" }, sh.show()));
            let t = if host {
                let n = if s.bool() { sh.size() } else { sh.size() + 1 };
                Tensor::new_host_tensor(to_shape(&sh), vec![1.0; n])
            } else {
                w.dev(d).new_tensor(to_shape(&sh))
            };
            w.live.push(Live { t: Box::new(t), dev: d, v: None, sh });
        }
        _ => {
            if w.live.len() > 3 {
                let i = s.index(w.live.len());
                ctx.desc(|| format!("drop tensor {}", i));
                w.live.swap_remove(i);
            }
        }
    }
    if w.live.len() > 24 {
        w.live.remove(0);
    }
    Ok(())
}

fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let nd = s.range(1, 2) as usize;
    let mut w = World { raw: vec![], st: vec![], live: vec![], refused: 0, worked: 0, kind: 0, seen: Default::default() };
    for _ in 0..nd {
        let (d, st) = rec_device(s.chance(2, 3));
        w.raw.push(Box::into_raw(Box::new(d)));
        w.st.push(st);
    }
    for _ in 0..3 {
        let sh = gen::shape(&mut s, Lim { depth: 3, vol: 20, batch: 3 });
        w.add(0, &sh, &mut s);
    }
    let mut r = Ok(());
    for (n, st) in case.steps.iter().enumerate() {
        let mut s = Src::new(st);
        r = step(&mut w, &mut s, ctx);
        if r.is_ok() && n % 4 == 3 {
            r = probe(&mut w, &mut s, ctx);
        }
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = probe(&mut w, &mut s, ctx);
    }
    if r.is_err() {
        std::mem::forget(w);
        return r;
    }
    for l in std::mem::take(&mut w.seen) {
        ctx.label(l);
    }
    if w.refused >= 2 {
        ctx.nontrivial();
    }
    w.after("nothing", &Ok(()), None)?;
    w.live.clear();
    for (d, st) in w.raw.iter().zip(&w.st) {
        drop(unsafe { Box::from_raw(*d) });
        settled(st)?;
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C29",
        rule: "history: up to 16 calls on one or two recording devices, most of them with operands that do not fit: operations (as tensors and in graphs, nearly well-formed or on whatever tensors there are, across devices, without memory), in-place arithmetic, resets, lifecycle calls, random calls and initialisers, gradient functions with wrong operands, unknown kernels, impossible sizes, kernels that fail half way, parameters, damaged files; after every refusal every live tensor has its shape, memory and bits, guard zones are whole, valid calls and the random source work, and at the end the backend has every buffer back exactly once. Non-trivial: at least two refusals.",
        assumptions: &["a call that was accepted may change only its target; what it computes is decided by other checks"],
        subs: vec![Sub { name: "history", head: 40, steps: (1, 16), step_len: 50, quick: 140_000, thorough: 5_600_000, run: history }],
    })
}
