use harness::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Fwd(usize),
    Bwd(usize),
}

struct Log {
    ev: Vec<Ev>,
    err: Option<String>,
}

/// adds up its operands (weighted by position) plus its number; records when it runs
struct Rec<'d> {
    dev: &'d Device<'d>,
    id: usize,
    outs: usize,
    /// passes nothing on
    stop: bool,
    shape: Shape,
    log: Rc<RefCell<Log>>,
}

fn weight(i: usize) -> f32 {
    (i % 3) as f32 + 1.0
}

impl<'a, 'd: 'a> pu::Operator<'a, 'd> for Rec<'d> {
    fn name(&self) -> String {
        format!("Rec{}", self.id)
    }
    fn device(&self) -> &'d Device<'d> {
        self.dev
    }
    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
        vec![self.shape; self.outs]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        self.log.borrow_mut().ev.push(Ev::Fwd(self.id));
        let mut s = 0.0;
        for (i, t) in x.iter().enumerate() {
            if !t.valid() {
                self.log.borrow_mut().err = Some(format!("operation {} ran before its operand {}", self.id, i));
                s = f32::NAN;
                continue;
            }
            s += weight(i) * t.to_vec()[0] % 97.0;
        }
        if y.len() != self.outs {
            self.log.borrow_mut().err = Some(format!("operation {} got {} results", self.id, y.len()));
        }
        for (j, t) in y.iter_mut().enumerate() {
            let mut v = vec![self.id as f32; self.shape.size() as usize];
            v[0] = (s + self.id as f32 + j as f32) % 97.0;
            t.alloc();
            self.dev.reset_tensor_by_slice(t, &v);
        }
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        self.log.borrow_mut().ev.push(Ev::Bwd(self.id));
        if x.iter().any(|t| !t.valid()) || y.iter().any(|t| !t.valid()) {
            self.log.borrow_mut().err = Some(format!("backward of operation {} without values", self.id));
            return;
        }
        if gy.iter().any(|t| !t.valid()) || gx.iter().any(|t| !t.borrow().valid()) {
            self.log.borrow_mut().err = Some(format!("backward of operation {} without gradients", self.id));
            return;
        }
        let mut s = 0.0;
        for g in gy {
            s += g.to_vec()[0];
        }
        if self.stop {
            return;
        }
        for g in gx {
            let mut v = vec![0.0; g.borrow().shape().size() as usize];
            v[0] = s.min(1e6);
            add_to(g, &v);
        }
    }
}

fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let dev = D::Naive::new();
    let log = Rc::new(RefCell::new(Log { ev: vec![], err: None }));
    let mut v: Vec<Node> = vec![];
    // value -> (op, output)
    let mut owner: Vec<usize> = vec![];
    let mut args: Vec<Vec<usize>> = vec![]; // per op: value indices
    let mut done: Vec<bool> = vec![];
    let mut values: Vec<f32> = vec![];
    let mut evals = 0;
    let mut model_val: Vec<f32> = vec![];
    for w in &case.steps {
        let mut s = Src::new(w);
        match if v.is_empty() { 0 } else { s.weighted(&[6, 2, 2]) } {
            0 => {
                let id = args.len();
                let n = if v.is_empty() { 0 } else { [1, 2, 3, 0, 6][s.weighted(&[5, 5, 2, 1, 1])] };
                let outs = if s.chance(1, 20) { s.range(4, 24) as usize } else { [1, 2, 3][s.weighted(&[6, 2, 1])] };
                let stop = s.chance(1, 4);
                let many = if n == 6 && s.bool() { (s.range(7, 60), s.word()) } else { (0, 0) };
                let mut a: Vec<usize> = (0..n).map(|_| if s.bool() { v.len() - 1 - s.index(v.len().min(4)) } else { s.index(v.len()) }).collect();
                // a great many operands
                a.extend((0..many.0 as u64).map(|i| (mix((many.1 as u64) << 32 | i) % v.len() as u64) as usize));
                let shape = match mix(id as u64 + 77) % 5 {
                    0 | 1 => Shape::new(&[2], 1),
                    2 => Shape::new(&[2], 3),
                    3 => Shape::new(&[], 1),
                    _ => Shape::new(&[2, 1, 2], 2),
                };
                let r = {
                    let ar: Vec<&Node> = a.iter().map(|&i| &v[i]).collect();
                    Node::create(Rec { dev: &dev, id, outs, stop, shape, log: log.clone() }, &ar)
                };
                if r.len() != outs {
                    return Err("wrong number of results".into());
                }
                ctx.desc(|| format!("op{} {:?} -> {}{}", id, a, outs, if stop { " (constant)" } else { "" }));
                let sum: f32 = a.iter().enumerate().fold(0.0, |acc, (i, &k)| acc + weight(i) * model_val[k] % 97.0);
                for (j, n) in r.into_iter().enumerate() {
                    v.push(n);
                    owner.push(id);
                    model_val.push((sum + id as f32 + j as f32) % 97.0);
                    values.push(f32::NAN);
                }
                args.push(a);
                done.push(false);
            }
            k => {
                let root = if s.bool() { v.len() - 1 } else { s.index(v.len()) };
                // operations the root depends on
                let mut need = vec![false; args.len()];
                let mut stack = vec![owner[root]];
                while let Some(o) = stack.pop() {
                    if !need[o] {
                        need[o] = true;
                        stack.extend(args[o].iter().map(|&a| owner[a]));
                    }
                }
                let before = log.borrow().ev.len();
                let how = s.below(3);
                ctx.desc(|| format!("{} v{}", if k == 1 { "evaluate" } else { "backward from" }, root));
                if k == 1 {
                    match how {
                        0 => v[root].forward(),
                        1 => {
                            v[root].to_vec();
                        }
                        _ => {
                            v[root].argmax(0);
                        }
                    }
                } else {
                    v[root].backward();
                }
                evals += 1;
                if let Some(e) = log.borrow().err.clone() {
                    return Err(e);
                }
                let ev: Vec<Ev> = log.borrow().ev[before..].to_vec();
                let mut pos_f = vec![None; args.len()];
                let mut pos_b = vec![None; args.len()];
                for (i, e) in ev.iter().enumerate() {
                    let (slot, o) = match e {
                        Ev::Fwd(o) => (&mut pos_f, *o),
                        Ev::Bwd(o) => (&mut pos_b, *o),
                    };
                    if slot[o].replace(i).is_some() {
                        return Err(format!("operation {} ran twice in one pass ({:?})", o, e));
                    }
                }
                for o in 0..args.len() {
                    let want_f = need[o] && !done[o];
                    if pos_f[o].is_some() != want_f {
                        return Err(format!("operation {} {} evaluated", o, if want_f { "was not" } else { "must not be" }));
                    }
                    let want_b = need[o] && k == 2;
                    if pos_b[o].is_some() != want_b {
                        return Err(format!("operation {} {} visited backward", o, if want_b { "was not" } else { "must not be" }));
                    }
                    for &a in &args[o] {
                        let p = owner[a];
                        if let (Some(x), Some(y)) = (pos_f[p], pos_f[o]) {
                            if x > y {
                                return Err(format!("operation {} ran before its operand's operation {}", o, p));
                            }
                        }
                        if let (Some(x), Some(y)) = (pos_b[p], pos_b[o]) {
                            if x < y {
                                return Err(format!("operation {} was visited backward before its user {}", p, o));
                            }
                        }
                    }
                    if want_f {
                        done[o] = true;
                    }
                }
            }
        }
        for (i, n) in v.iter().enumerate() {
            if done[owner[i]] {
                let x = n.inner_value().to_vec();
                if x[0] != model_val[i] {
                    return Err(format!("value {} is {:?}, expected {:?}", i, x[0], model_val[i]));
                }
            } else if n.inner_value().valid() {
                return Err(format!("value {} exists although nothing asked for it", i));
            }
        }
    }
    if evals >= 2 && args.len() >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

/// the library's own operations: building evaluates nothing, asking evaluates what is needed, and only once
fn library(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &Opts { max_size: 60, contrib: true, ..Opts::DEFAULT });
    let p = &b.prog;
    if p.steps.is_empty() {
        return Ok(());
    }
    ctx.desc(|| p.show());
    let (dev, st) = rec_device(false);
    // SAFETY: everything on the device is dropped before it
    let d: &'static Device<'static> = unsafe { &*(&dev as *const Device<'static>) };
    let seed = Src::new(&case.head[24..]).word() as u64;
    let calls = |st: &Shared| -> Vec<String> {
        with_state(st, |x| {
            let mut v: Vec<String> = x.calls.drain(..).map(|c| c.name).filter(|n| n != "tensor_to_vector_impl").collect();
            v.sort();
            v
        })
    };
    let run = |order: &[usize]| -> Result<Vec<String>, String> {
        let v = build_nodes(d, p);
        for n in &v {
            n.shape();
            n.device();
        }
        if let Some(i) = v.iter().position(|n| n.inner_value().valid()) {
            return Err(format!("value {} exists although the graph was only built", i));
        }
        with_state(&st, |x| {
            x.calls.clear();
            x.log = true
        });
        let mut have = vec![false; v.len()];
        let mut all = vec![];
        for (k, &root) in order.iter().enumerate() {
            let how = mix(seed ^ (k as u64) << 9) % 4;
            match how {
                0 => v[root].forward(),
                1 => {
                    v[root].to_vec();
                }
                2 => {
                    let dim = mix(seed ^ k as u64) as u32 % 3;
                    v[root].argmin(dim);
                }
                _ => {
                    if v[root].shape().size() == 1 {
                        v[root].to_float();
                    } else {
                        v[root].forward()
                    }
                }
            }
            for (i, c) in p.cone(&[root]).into_iter().enumerate() {
                have[i] |= c;
            }
            // results of one operation exist together
            for s in &p.steps {
                let any = (s.first..s.first + s.n).any(|i| have[i]);
                (s.first..s.first + s.n).for_each(|i| have[i] = any);
            }
            for (i, n) in v.iter().enumerate() {
                if n.inner_value().valid() != have[i] {
                    return Err(format!("after asking for value {}, value {} {}", root, i, if have[i] { "is missing" } else { "exists although it is not needed" }));
                }
            }
            let mut c = calls(&st);
            c.retain(|n| !n.starts_with("arg"));
            all.append(&mut c);
            let handles: Vec<usize> = v.iter().map(|n| handle_of(&n.inner_value())).collect();
            // asking again computes nothing
            v[root].forward();
            v[root].to_vec();
            let c = calls(&st);
            if !c.is_empty() {
                return Err(format!("value {} was asked for twice: {:?} ran again", root, c));
            }
            if mix(seed ^ (k as u64) << 20) % 3 == 0 {
                v[root].backward();
                calls(&st);
                let now: Vec<usize> = v.iter().map(|n| handle_of(&n.inner_value())).collect();
                if now != handles {
                    return Err(format!("propagation from value {} replaced values", root));
                }
            }
        }
        all.sort();
        Ok(all)
    };
    let n = p.len();
    let in_order: Vec<usize> = (0..n).collect();
    let mut shuffled = in_order.clone();
    shuffled.sort_by_key(|&i| mix(seed ^ (i as u64) << 32));
    let a = run(&in_order)?;
    let c = run(&shuffled)?;
    if a != c {
        return Err(format!("evaluated one by one {} kernels run, in another order {}: {:?} / {:?}", a.len(), c.len(), a, c));
    }
    with_state(&st, |x| x.log = false);
    errors(&st)?;
    drop(dev);
    if n >= 4 {
        ctx.nontrivial();
    }
    settled(&st)
}

fn main() {
    run_main(Check {
        id: "C13",
        rule: "histories that interleave creating recording operations (0..66 operands, repeated ones included, 1..24 results) with evaluations and backward passes from arbitrary values; after each, the log of calls against the dependency relation (exactly the needed ones, once, in order) and every value against a model; non-trivial with at least four operations and two evaluations. library: programs of the library's own operations: building them evaluates nothing, asking for values one by one in any order (in different ways, with propagation in between) makes exactly the needed values exist, runs the same kernels in total as any other order, and nothing a second time; non-trivial with at least four values",
        assumptions: &[],
        subs: vec![
            Sub { name: "history", head: 1, steps: (2, 40), step_len: 19, quick: 480_000, thorough: 19_200_000, run: history },
            Sub { name: "library", head: 64, steps: (1, 10), step_len: 36, quick: 20_000, thorough: 800_000, run: library },
        ],
    })
}
