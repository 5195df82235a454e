use harness::*;

/// a device that can be dropped while tensors with its lifetime were around (all dropped before)
struct Owned {
    raw: *mut Device<'static>,
    st: Shared,
}

impl Owned {
    fn new(guard: bool) -> Owned {
        let (d, st) = rec_device(guard);
        Owned { raw: Box::into_raw(Box::new(d)), st }
    }
    fn dev(&self) -> &'static Device<'static> {
        unsafe { &*self.raw }
    }
    fn finish(self) -> Result<(), String> {
        errors(&self.st)?;
        drop(unsafe { Box::from_raw(self.raw) });
        settled(&self.st)
    }
}

struct Live {
    t: Tensor<'static>,
    v: Vec<f32>,
}

fn size(s: &mut Src) -> u32 {
    match s.weighted(&[3, 5, 4, 2, 1]) {
        0 => s.range(1, 8),
        1 => {
            let k = s.range(6, 10);
            let b = 1u32 << k;
            b - 1 + s.below(3)
        }
        2 => *s.pick(&[60, 63, 64, 65, 66, 100, 127, 128, 129, 192]),
        3 => s.range(1, 600),
        _ => *s.pick(&[2047, 2048, 2049, 4096, 4097, 8192, 8193]),
    }
}

fn fill(s: &mut Src, n: usize) -> Vec<f32> {
    Vals { mode: Mode::Ints(1 << 20), seed: s.word() | 1, exp: 0 }.fill(n)
}

fn check(live: &[Live], held: &[(usize, u32)], st: &Shared, contents: bool) -> Result<(), String> {
    let mut seen: std::collections::HashMap<usize, usize> = Default::default();
    for (i, l) in live.iter().enumerate() {
        let h = handle_of(&l.t);
        if h == 0 {
            return Err(format!("tensor {} lost its memory", i));
        }
        if let Some(j) = seen.insert(h, i) {
            return Err(format!("live tensors {} and {} have the same buffer", j, i));
        }
        let n = l.v.len() as u32;
        match with_state(st, |s| s.size_of(h)) {
            None => return Err(format!("the buffer of live tensor {} does not belong to the backend any more", i)),
            Some(c) if c < n => return Err(format!("tensor {} of {} elements has a buffer of {}", i, n, c)),
            _ => {}
        }
    }
    for (h, n) in held {
        if seen.insert(*h, usize::MAX).is_some() {
            return Err("a buffer is in use twice".into());
        }
        match with_state(st, |s| s.size_of(*h)) {
            Some(c) if c >= *n => {}
            x => return Err(format!("a buffer asked for with {} elements has {:?}", n, x)),
        }
    }
    if contents {
        for (i, l) in live.iter().enumerate() {
            check_bits(&format!("contents of live tensor {} ({} elements)", i, l.v.len()), &l.t.to_vec(), &l.v)?;
        }
    }
    errors(st)
}

fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let o = Owned::new(s.chance(1, 2));
    let dev = o.dev();
    let st = o.st.clone();
    let mut live: Vec<Live> = vec![];
    let mut held: Vec<(usize, u32)> = vec![];
    let mut dropped = 0;
    let mut reused = 0;
    for w in &case.steps {
        let mut s = Src::new(w);
        let kind = s.weighted(&[8, 8, 3, 3, 3, 2, 3, 2, 2, 2, 2, 2, 2, 2]);
        let req = with_state(&st, |x| x.requested);
        let n_before = live.len();
        let i = if live.is_empty() { 0 } else { s.index(live.len()) };
        match kind {
            0 => {
                let n = size(&mut s);
                let v = fill(&mut s, n as usize);
                ctx.desc(|| format!("new {}", n));
                let sh = if n % 2 == 0 && s.bool() { Shape::new(&[n / 2], 2) } else { Shape::new(&[n], 1) };
                live.push(Live { t: dev.new_tensor_by_slice(sh, &v), v });
            }
            1 => {
                if !live.is_empty() {
                    ctx.desc(|| format!("drop {}", i));
                    live.swap_remove(i);
                    dropped += 1;
                }
            }
            2 if !live.is_empty() => {
                ctx.desc(|| format!("copy {}", i));
                let t = dev.copy_tensor(&live[i].t);
                let v = live[i].v.clone();
                live.push(Live { t, v });
            }
            3 if !live.is_empty() => {
                ctx.desc(|| format!("take over {}", i));
                let l = live.swap_remove(i);
                let mut u = dev.new_tensor(l.t.shape());
                u.replace(l.t);
                live.push(Live { t: u, v: l.v });
            }
            4 if !live.is_empty() => {
                let keep = s.bool();
                ctx.desc(|| format!("view of {} {}", i, if keep { "taken over" } else { "dropped" }));
                let view = Tensor::from(&live[i].t);
                check_bits("view", &view.to_vec(), &live[i].v)?;
                if keep {
                    let mut u = dev.new_tensor(live[i].t.shape());
                    u.replace(view);
                    if handle_of(&u) == handle_of(&live[i].t) {
                        return Err("taking over a view duplicated ownership of its referent's buffer".into());
                    }
                    let v = live[i].v.clone();
                    live.push(Live { t: u, v });
                }
            }
            5 if !live.is_empty() => {
                ctx.desc(|| format!("overwrite {}", i));
                let v = fill(&mut s, live[i].v.len());
                dev.reset_tensor_by_slice(&mut live[i].t, &v);
                live[i].v = v;
            }
            6 if !live.is_empty() => {
                let l = &live[i];
                let n = l.v.len();
                let sh = from_shape(l.t.shape());
                match s.below(4) {
                    0 => {
                        ctx.desc(|| format!("negate {}", i));
                        let t = -&l.t;
                        let v = l.v.iter().map(|x| -x).collect();
                        live.push(Live { t, v });
                    }
                    1 if sh.batch == 1 && n < 5000 => {
                        ctx.desc(|| format!("concat {0} {0}", i));
                        let t = Tensor::concat(&[&l.t, &l.t], 0);
                        let v = l.v.iter().chain(&l.v).copied().collect();
                        live.push(Live { t, v });
                    }
                    2 if sh.batch == 1 => {
                        let m = s.range(1, n as u32);
                        ctx.desc(|| format!("slice {} to {}", i, m));
                        let t = l.t.slice(0, 0, m);
                        let v = l.v[..m as usize].to_vec();
                        live.push(Live { t, v });
                    }
                    _ => {
                        ctx.desc(|| format!("in place {}", i));
                        let c = dev.copy_tensor(&l.t);
                        let l = &mut live[i];
                        l.t += &c;
                        l.t -= &c;
                        l.v.iter_mut().for_each(|x| *x += 0.0);
                    }
                }
            }
            7 if !live.is_empty() => {
                // a graph over a view and over an owned copy, evaluated or not, differentiated or not
                let depth = s.range(1, 4);
                let how = s.below(4);
                ctx.desc(|| format!("graph of {} over {} mode {}", depth, i, how));
                let base = handle_of(&live[i].t);
                {
                    let a: Node = Node::from(&live[i].t);
                    let b: Node = Node::from(dev.copy_tensor(&live[i].t));
                    let mut y = &a - &b;
                    for _ in 0..depth {
                        y = &y + &a * 0.0;
                    }
                    if how >= 1 {
                        let got = y.to_vec();
                        if got.iter().any(|&x| x != 0.0) {
                            return Err("graph over recycled memory gives a wrong value".into());
                        }
                    }
                    if how >= 2 {
                        y.backward();
                    }
                    if how == 3 {
                        y.backward();
                    }
                }
                if handle_of(&live[i].t) != base {
                    return Err("a graph over a tensor changed the tensor's buffer".into());
                }
            }
            8 if !live.is_empty() && live[i].t.shape().batch() == 1 => {
                // the tensor becomes a parameter, is used and given back
                ctx.desc(|| format!("parameter from {}", i));
                let l = live.swap_remove(i);
                let sh = l.t.shape();
                let mut p = Parameter::new(l.t, dev.new_tensor_by_constant(sh, 0.0));
                let mut a = pu::optimizers::Adam::new(0.0, 0.9, 0.999, 1e-8);
                if s.bool() {
                    a.configure_parameter(&mut p);
                    (Node::from(&mut p) * 2.0).backward();
                    a.update_parameters(&mut [&mut p]);
                } else {
                    (Node::from(&mut p) + 1.0).backward();
                }
                let Parameter { value, .. } = p;
                live.push(Live { t: value, v: l.v });
            }
            9 => {
                let n = size(&mut s);
                ctx.desc(|| format!("from host {}", n));
                let v = fill(&mut s, n as usize);
                let mut t = Tensor::new_host_tensor(Shape::new(&[n], 1), v.clone());
                if s.chance(1, 4) {
                    drop(t); // never moved to a device
                } else {
                    t.move_to_device(dev);
                    live.push(Live { t, v });
                }
            }
            10 => {
                ctx.desc(|| "empty tensor".into());
                let n = size(&mut s);
                let t = dev.new_tensor(Shape::new(&[n], 1));
                if t.valid() {
                    return Err("a tensor without memory claims to be valid".into());
                }
                match s.below(4) {
                    0 => {}
                    1 => {
                        // a view of nothing gets memory of its own
                        let mut u = Tensor::from(&t);
                        u.alloc();
                        let v = fill(&mut s, n as usize);
                        dev.reset_tensor_by_slice(&mut u, &v);
                        let mut w = dev.new_tensor(Shape::new(&[n], 1));
                        w.replace(u);
                        live.push(Live { t: w, v });
                    }
                    2 => {
                        // nothing is taken over
                        let v = fill(&mut s, n as usize);
                        let mut u = dev.new_tensor(Shape::new(&[n], 1));
                        u.replace(t);
                        if u.valid() {
                            return Err("a tensor that took over nothing claims to be valid".into());
                        }
                        u.alloc();
                        dev.reset_tensor_by_slice(&mut u, &v);
                        live.push(Live { t: u, v });
                    }
                    _ => {
                        // allocated and never written
                        let mut u = t;
                        u.alloc();
                        drop(u);
                    }
                }
            }
            11 => {
                let n = size(&mut s);
                ctx.desc(|| format!("raw buffer {}", n));
                let h = dev.new_handle(n);
                held.push((h.load(std::sync::atomic::Ordering::Acquire) as usize, n));
            }
            12 => {
                if !held.is_empty() {
                    let k = s.index(held.len());
                    ctx.desc(|| "return raw buffer".into());
                    let (h, _) = held.swap_remove(k);
                    dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut std::ffi::c_void));
                }
            }
            13 if !live.is_empty() => {
                // to disk and back
                ctx.desc(|| format!("serialise {}", i));
                let text = bincode::serialize(&live[i].t).map_err(|e| e.to_string())?;
                let mut t: Tensor = bincode::deserialize(&text).map_err(|e| e.to_string())?;
                t.move_to_device(dev);
                let v = live[i].v.clone();
                live.push(Live { t, v });
            }
            _ => {}
        }
        if dropped > 0 && live.len() > n_before && with_state(&st, |x| x.requested) == req {
            reused += 1;
        }
        check(&live, &held, &st, s.chance(1, 3))?;
    }
    check(&live, &held, &st, true)?;
    if reused > 0 {
        ctx.nontrivial();
    }
    drop(live);
    for (h, _) in held {
        dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut std::ffi::c_void));
    }
    o.finish()
}

/// the same work again and again takes no further memory, and all of it is returned in the end
fn steady(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &Opts { max_size: 400, max_err: 1e-2, smooth: true, ..Opts::DEFAULT });
    let p = &b.prog;
    let mut s = Src::new(&case.head[24..]);
    let mode = s.below(4);
    ctx.desc(|| format!("mode {} {}", mode, p.show()));
    let o = Owned::new(false);
    let st = o.st.clone();
    let dev = o.dev();
    let mut params: Vec<Parameter> = vec![];
    let mut adam = pu::optimizers::Adam::new(0.0, 0.9, 0.999, 1e-8);
    adam.set_gradient_clipping(1.0);
    if mode == 3 {
        for (sh, d) in &p.leaves {
            let sh = sh.with_batch(1);
            let mut q = Parameter::new(mk(dev, &sh, &d[..sh.size()]), dev.new_tensor_by_constant(to_shape(&sh), 0.0));
            adam.configure_parameter(&mut q);
            params.push(q);
        }
    }
    let mut marks = vec![];
    let mut live = vec![];
    let n = if s.chance(1, 12) { s.range(40, 300) as usize } else { 6 };
    for _ in 0..n {
        match mode {
            0 => drop(run_tensors(dev, p)),
            1 => {
                let v = build_nodes(dev, p);
                v.last().unwrap().forward();
            }
            2 => {
                let v = build_nodes(dev, p);
                v.last().unwrap().backward();
                v[0].backward();
            }
            _ => {
                // training: parameters with minibatch size one stand for the leaves
                {
                    let mut acc: Option<Node> = None;
                    for q in params.iter_mut() {
                        let x = Node::from(q).flatten().tanh().sum(0);
                        acc = Some(match acc {
                            None => x,
                            Some(a) => a + x,
                        });
                    }
                    acc.unwrap().backward();
                }
                let mut l: Vec<&mut Parameter> = params.iter_mut().collect();
                adam.update_parameters(&mut l);
            }
        }
        marks.push(with_state(&st, |x| x.requested));
        live.push(with_state(&st, |x| x.live.len()));
    }
    if marks[n - 1] > marks[2] {
        return Err(format!("identical work keeps taking memory: {:?} buffers requested after each round", marks));
    }
    if p.steps.len() >= 2 {
        ctx.nontrivial();
    }
    drop(params);
    o.finish()
}

/// a backend that gives out numbers instead of memory, so that any size can be asked for
#[derive(Default)]
struct Ledger {
    out: std::collections::HashMap<usize, u32>,
    back: Vec<usize>,
    next: usize,
    bad: Option<String>,
}
struct Paper(std::sync::Arc<std::sync::Mutex<Ledger>>);
impl pu::DeviceImpl for Paper {
    fn identifier(&self) -> String {
        "paper".into()
    }
    fn new_handle(&self, size: u32) -> std::sync::atomic::AtomicPtr<std::ffi::c_void> {
        let mut l = self.0.lock().unwrap();
        l.next += 64;
        let h = l.next;
        l.out.insert(h, size);
        std::sync::atomic::AtomicPtr::new(h as *mut _)
    }
    fn drop_handle(&self, h: &std::sync::atomic::AtomicPtr<std::ffi::c_void>) {
        let h = h.load(std::sync::atomic::Ordering::Acquire) as usize;
        let mut l = self.0.lock().unwrap();
        if l.out.remove(&h).is_none() {
            l.bad = Some(format!("buffer {} returned although it is not out", h));
        }
        l.back.push(h);
    }
}

/// every size up to 2^31 elements, taken and returned in any order
fn sizes(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let led: std::sync::Arc<std::sync::Mutex<Ledger>> = Default::default();
    let dev = Device::new(Paper(led.clone()));
    let mut held: Vec<(usize, u32)> = vec![];
    let mut owned: std::collections::HashSet<usize> = Default::default();
    let mut big = false;
    let mut last = 1;
    // the whole sequence may be gone through several times, which needs no further memory
    let mut s = Src::new(&case.head);
    let rounds = [1, 1, 6][s.index(3)];
    let mut marks = vec![];
    for (r, w) in (0..rounds).flat_map(|r| case.steps.iter().map(move |w| (r, w))) {
        if r > marks.len() {
            marks.push(led.lock().unwrap().next);
            last = 1;
            for (h, _) in held.drain(..) {
                dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut _));
            }
            owned.clear();
        }
        let mut s = Src::new(w);
        if s.chance(1, 12) {
            // very many of one size, all returned except a few
            let n = 1u32 << s.range(0, 12);
            let m = s.range(2, 400);
            let keep = s.below(4).min(m);
            ctx.desc(|| format!("take {} of {}, return all but {}", m, n, keep));
            let mut now = vec![];
            for _ in 0..m {
                let h = dev.new_handle(n).load(std::sync::atomic::Ordering::Acquire) as usize;
                match led.lock().unwrap().out.get(&h) {
                    None => return Err(format!("a buffer the backend does not have out was given for {} elements", n)),
                    Some(&c) if c < n => return Err(format!("a buffer of {} was given for {} elements", c, n)),
                    _ => {}
                }
                if !owned.insert(h) {
                    return Err("a buffer was given to two owners".into());
                }
                now.push((h, n));
            }
            held.extend(now.drain(..keep as usize));
            if s.bool() {
                now.reverse();
            }
            for (h, _) in now {
                owned.remove(&h);
                dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut _));
            }
        } else if held.is_empty() || s.chance(3, 5) {
            let k = s.range(0, 31);
            let top = 1u32 << k;
            let n = match s.below(5) {
                0 => top,
                1 => top.saturating_sub(s.below(4)).max(1),
                2 => (top as u64 + s.below(5) as u64).min(1 << 31) as u32,
                3 => (top | s.word() & (top - 1)).max(1).min(1 << 31),
                // near what was asked for last
                _ => (last + s.below(3)).min(1 << 31),
            };
            last = n;
            ctx.desc(|| format!("take {}", n));
            let h = dev.new_handle(n).load(std::sync::atomic::Ordering::Acquire) as usize;
            let l = led.lock().unwrap();
            match l.out.get(&h) {
                None => return Err(format!("a buffer the backend does not have out was given for {} elements", n)),
                Some(&c) if c < n => return Err(format!("a buffer of {} was given for {} elements", c, n)),
                _ => {}
            }
            if !owned.insert(h) {
                return Err("a buffer was given to two owners".into());
            }
            big |= n > 1 << 16;
            held.push((h, n));
        } else {
            let i = s.index(held.len());
            let (h, n) = held.swap_remove(i);
            owned.remove(&h);
            ctx.desc(|| format!("return {}", n));
            dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut _));
        }
    }
    marks.push(led.lock().unwrap().next);
    if marks.len() == 6 && marks[5] > marks[2] {
        return Err(format!("the same sequence keeps taking memory: {:?} buffers requested after each round", marks.iter().map(|x| x / 64).collect::<Vec<_>>()));
    }
    if big {
        ctx.nontrivial();
    }
    for (h, _) in held {
        dev.drop_handle(&std::sync::atomic::AtomicPtr::new(h as *mut _));
    }
    drop(dev);
    let l = led.lock().unwrap();
    if let Some(b) = &l.bad {
        return Err(b.clone());
    }
    if !l.out.is_empty() {
        return Err(format!("{} buffers were never returned to the backend", l.out.len()));
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C19",
        rule: "history: up to 60 events on a recording backend (tensors created with sizes around powers of two, dropped, copied, taken over, viewed, overwritten, computed, used in graphs and parameters, moved from host, serialised, raw buffers taken and returned); after each event: live owners have distinct buffers that belong to the backend and are large enough, contents regularly compared; finally the device is dropped and the backend must have everything back exactly once; non-trivial when a buffer was reused. sizes: buffers of any size up to 2^31, and hundreds of one size, taken and returned on a backend without memory, also the same sequence six times, each large enough, exclusively owned and returned once; non-trivial with one above 2^16. steady: a random program run six times (eagerly, lazily, with backward, as training): no further buffer after the third round; non-trivial with two operations.",
        assumptions: &["buffers are recognised by the handle the backend gave out"],
        subs: vec![
            Sub { name: "history", head: 8, steps: (4, 60), step_len: 8, quick: 140_000, thorough: 5_600_000, run: history },
            Sub { name: "sizes", head: 1, steps: (1, 40), step_len: 6, quick: 210_000, thorough: 8_400_000, run: sizes },
            Sub { name: "steady", head: 80, steps: (1, 12), step_len: 36, quick: 28_000, thorough: 1_120_000, run: steady },
        ],
    })
}
