//! Model-based histories of tensor lifecycles.
use harness::*;
use std::collections::HashMap;

type T = Tensor<'static>;

#[derive(Clone, Debug, PartialEq)]
enum St {
    /// values on the host, not on a device
    Host(Vec<f32>),
    /// no memory
    Empty,
    /// memory of its own
    Own(usize),
    /// shows the contents of another tensor
    View(usize, usize),
}

struct Slot {
    id: usize,
    t: Box<T>,
    sh: Sh,
    dev: usize,
    st: St,
}

#[derive(Default)]
struct World {
    slots: Vec<Slot>,
    /// contents; None: allocated, never written
    cells: HashMap<usize, Option<Vec<f32>>>,
    next: usize,
}

impl World {
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn add(&mut self, t: T, sh: Sh, dev: usize, st: St) {
        let id = self.id();
        self.slots.push(Slot { id, t: Box::new(t), sh, dev, st });
    }
    fn add_own(&mut self, t: T, sh: Sh, dev: usize, v: Option<Vec<f32>>) {
        let c = self.id();
        self.cells.insert(c, v);
        self.add(t, sh, dev, St::Own(c));
    }
    fn cell(&self, i: usize) -> Option<usize> {
        match self.slots[i].st {
            St::Own(c) | St::View(c, _) => Some(c),
            _ => None,
        }
    }
    /// contents, if it has any that are known
    fn vals(&self, i: usize) -> Option<&Vec<f32>> {
        self.cells[&self.cell(i)?].as_ref()
    }
    /// some view borrows it: it can be read, not changed, moved or dropped
    fn borrowed(&self, i: usize) -> bool {
        let id = self.slots[i].id;
        self.slots.iter().any(|s| matches!(s.st, St::View(_, r) if r == id))
    }
    fn free(&self, i: usize) -> bool {
        !self.borrowed(i)
    }
    fn remove(&mut self, i: usize) -> Slot {
        self.slots.swap_remove(i)
    }
}

fn other_factoring(s: &mut Src, sh: &Sh) -> Sh {
    let n = sh.size() as u32;
    let mut rest = n;
    let mut dims = vec![];
    let mut batch = 1;
    while rest > 1 && dims.len() < 6 {
        let divs: Vec<u32> = (2..=rest).filter(|d| rest % d == 0).collect();
        let d = *s.pick(&divs);
        if s.chance(1, 4) && batch == 1 {
            batch = d;
        } else {
            dims.push(d);
        }
        rest /= d;
    }
    if rest > 1 {
        dims.push(rest);
    }
    Sh::new(&dims, batch)
}

fn small(s: &mut Src) -> Sh {
    let l = [Lim { depth: 3, vol: 12, batch: 3 }, Lim { depth: 4, vol: 60, batch: 3 }, Lim { depth: 3, vol: 200, batch: 3 }][s.weighted(&[6, 3, 1])];
    gen::shape(s, l)
}

fn data(s: &mut Src, n: usize) -> Vec<f32> {
    let mode = match s.below(4) {
        0 => Mode::Iota,
        1 => Mode::Signed(0.1, 3.0),
        _ => Mode::Ints(1 << 20),
    };
    let mut v = Vals { mode, seed: s.word() | 1, exp: 0 }.fill(n);
    if n > 0 && s.chance(1, 8) {
        let i = s.index(n);
        v[i] = *s.pick(&[-0.0, f32::INFINITY, f32::MIN_POSITIVE / 2.0, f32::MAX, f32::NAN]);
    }
    two_values(s, &mut v, 5, false);
    v
}

fn same(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    check_bits(what, got, want)
}

fn audit(w: &World, devs: &[(*mut Device<'static>, Option<Shared>)]) -> Result<(), String> {
    let mut owner: HashMap<usize, usize> = HashMap::new();
    for (i, s) in w.slots.iter().enumerate() {
        let name = format!("tensor #{}", s.id);
        if from_shape(s.t.shape()) != s.sh {
            return Err(format!("{}: shape {} expected {}", name, from_shape(s.t.shape()).show(), s.sh.show()));
        }
        let has = matches!(s.st, St::Own(_) | St::View(..));
        if s.t.valid() != has {
            return Err(format!("{} {} memory", name, if has { "lost its" } else { "has" }));
        }
        if let St::Own(c) = s.st {
            let h = handle_of(&s.t);
            if let Some(o) = owner.insert(h, c) {
                if o != c {
                    return Err(format!("{} shares its buffer with another owner", name));
                }
            }
        }
        if let St::Host(_) = s.st {
            continue;
        }
        if !std::ptr::eq(s.t.device(), devs[s.dev].0) {
            return Err(format!("{} is on another device", name));
        }
        if let Some(v) = w.vals(i) {
            same(&name, &s.t.to_vec(), v)?;
            if v.len() == 1 {
                same(&name, &[s.t.to_float()], v)?;
            }
        }
    }
    for s in &w.slots {
        if let St::View(c, _) = s.st {
            if owner.get(&handle_of(&s.t)) != Some(&c) {
                return Err(format!("view #{} does not show its referent's memory", s.id));
            }
        }
    }
    for d in devs {
        if let Some(st) = &d.1 {
            errors(st)?;
        }
    }
    Ok(())
}

fn refused(what: &str, r: Result<(), String>) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("{} was accepted", what)),
        Err(_) => Ok(()),
    }
}

fn long(t: &T) -> &'static T {
    // SAFETY: the model keeps a viewed tensor in place until its views are gone
    unsafe { &*(t as *const T) }
}

fn step(w: &mut World, devs: &[(*mut Device<'static>, Option<Shared>)], s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let dv = |i: usize| -> &'static Device<'static> { unsafe { &*devs[i].0 } };
    let k = s.weighted(&[6, 6, 3, 3, 3, 4, 6, 5, 7, 5, 6, 5, 5, 2, 4, 4, 3, 4, 3, 3, 2]);
    let d = s.index(devs.len());
    let n = w.slots.len();
    let i = if n == 0 { 0 } else { s.index(n) };
    match k {
        0 => {
            let sh = small(s);
            let v = data(s, sh.size());
            ctx.desc(|| format!("new #{} {} from values on device {}", w.next + 2, sh.show(), d));
            let t = mk(dv(d), &sh, &v);
            w.add_own(t, sh, d, Some(v));
        }
        1 => {
            let sh = small(s);
            let c = data(s, 1)[0];
            ctx.desc(|| format!("new #{} {} of constant {} on device {}", w.next + 2, sh.show(), c, d));
            let t = dv(d).new_tensor_by_constant(to_shape(&sh), c);
            let v = vec![c; sh.size()];
            w.add_own(t, sh, d, Some(v));
        }
        2 => {
            // an empty one, often fit to take over or refer to an existing one
            let (sh, d) = if n > 0 && s.chance(3, 4) { (w.slots[i].sh.clone(), w.slots[i].dev) } else { (small(s), d) };
            ctx.desc(|| format!("new #{} {} without memory on device {}", w.next + 1, sh.show(), d));
            let t = if s.bool() { dv(d).new_tensor(to_shape(&sh)) } else { Tensor::new(dv(d), to_shape(&sh)) };
            w.add(t, sh, d, St::Empty);
        }
        3 => {
            let sh = small(s);
            let len = if s.chance(1, 6) { sh.size() + 1 } else { sh.size() };
            let v = data(s, len);
            ctx.desc(|| format!("new #{} {} on the host with {} values", w.next + 1, sh.show(), len));
            w.add(Tensor::new_host_tensor(to_shape(&sh), v.clone()), sh, 0, St::Host(v));
        }
        _ if n == 0 => {}
        4 => {
            ctx.desc(|| format!("alloc #{}", w.slots[i].id));
            if !w.free(i) {
                return Ok(());
            }
            let r = guarded(|| w.slots[i].t.alloc());
            match w.slots[i].st {
                St::Empty => {
                    r?;
                    let c = w.id();
                    w.cells.insert(c, None);
                    w.slots[i].st = St::Own(c);
                }
                _ => refused("allocating a tensor with memory or host values", r)?,
            }
        }
        5 | 6 | 7 => {
            // writes; through a view they reach the referent
            if !w.free(i) {
                return Ok(());
            }
            let c = w.cell(i);
            let name = w.slots[i].id;
            if k == 5 {
                let x = data(s, 1)[0];
                ctx.desc(|| format!("reset #{} to {}", name, x));
                let r = guarded(|| w.slots[i].t.reset(x));
                match c {
                    Some(c) => {
                        r?;
                        let n = w.slots[i].sh.size();
                        w.cells.insert(c, Some(vec![x; n]));
                    }
                    None => refused("writing a tensor without memory", r)?,
                }
            } else if k == 6 {
                let len = w.slots[i].sh.size();
                let len = if s.chance(1, 6) { s.range(1, len as u32 + 2) as usize } else { len };
                let v = data(s, len);
                ctx.desc(|| format!("reset #{} with {} values", name, len));
                let d = w.slots[i].dev;
                let r = guarded(|| dv(d).reset_tensor_by_slice(&mut w.slots[i].t, &v));
                match c {
                    Some(c) if len == w.slots[i].sh.size() => {
                        r?;
                        w.cells.insert(c, Some(v));
                    }
                    _ => refused("writing the wrong number of values, or a tensor without memory", r)?,
                }
            } else {
                let j = s.index(n);
                if i == j {
                    return Ok(());
                }
                ctx.desc(|| format!("reset #{} with the contents of #{}", name, w.slots[j].id));
                if w.cell(j).is_some() && w.vals(j).is_none() {
                    return Ok(());
                }
                let d = w.slots[i].dev;
                let src = long(&w.slots[j].t);
                let r = guarded(|| dv(d).reset_tensor_by_tensor(&mut w.slots[i].t, src));
                let v = w.vals(j).cloned();
                match (c, v) {
                    (Some(c), Some(v)) if v.len() == w.slots[i].sh.size() => {
                        r?;
                        w.cells.insert(c, Some(v));
                    }
                    _ => refused("writing from a tensor of another size, or without memory", r)?,
                }
            }
        }
        8 => {
            ctx.desc(|| format!("copy of #{} as #{}", w.slots[i].id, w.next + 2));
            if w.cell(i).is_some() && w.vals(i).is_none() {
                return Ok(());
            }
            let d2 = if s.chance(3, 4) { w.slots[i].dev } else { d };
            let mut got = None;
            let r = guarded(|| got = Some(dv(d2).copy_tensor(&w.slots[i].t)));
            match w.vals(i).cloned() {
                Some(v) => {
                    r?;
                    let sh = w.slots[i].sh.clone();
                    w.add_own(got.unwrap(), sh, d2, Some(v));
                }
                None => refused("copying a tensor without memory", r)?,
            }
        }
        9 => {
            // a view of something with memory
            let Some(c) = w.cell(i) else { return Ok(()) };
            ctx.desc(|| format!("view #{} of #{}", w.next + 1, w.slots[i].id));
            let t = Tensor::from(long(&w.slots[i].t));
            let (sh, d, id) = (w.slots[i].sh.clone(), w.slots[i].dev, w.slots[i].id);
            w.add(t, sh, d, St::View(c, id));
        }
        10 => {
            // an existing tensor refers to another
            let j = pick_mate(w, i, s);
            if i == j || !w.free(i) || matches!(w.slots[j].st, St::Empty | St::Host(_)) {
                return Ok(());
            }
            ctx.desc(|| format!("#{} refers to #{}", w.slots[i].id, w.slots[j].id));
            let target = long(&w.slots[j].t);
            let r = guarded(|| w.slots[i].t.refer(target));
            if w.slots[i].st == St::Empty && w.slots[i].sh == w.slots[j].sh && w.slots[i].dev == w.slots[j].dev {
                r?;
                let c = w.cell(j).unwrap();
                w.slots[i].st = St::View(c, w.slots[j].id);
            } else {
                refused("referring to a tensor of another shape or device, or with memory of its own", r)?;
            }
        }
        11 => {
            // one takes over the memory of another, which is consumed
            let j = pick_mate(w, i, s);
            if i == j || !w.free(i) || !w.free(j) {
                return Ok(());
            }
            let fits = w.slots[i].st == St::Empty && w.slots[i].sh == w.slots[j].sh && w.slots[i].dev == w.slots[j].dev && !matches!(w.slots[j].st, St::Host(_));
            let (a, b) = (w.slots[i].id, w.slots[j].id);
            ctx.desc(|| format!("#{} takes over #{}", a, b));
            if matches!(w.slots[j].st, St::View(..)) && w.vals(j).is_none() {
                return Ok(());
            }
            let gone = w.remove(j);
            let i = w.slots.iter().position(|s| s.id == a).unwrap();
            let t = gone.t;
            let r = guarded(|| w.slots[i].t.replace(*t));
            if fits {
                r?;
                w.slots[i].st = match gone.st {
                    St::View(c, _) => {
                        // the referent keeps its memory
                        let v = w.cells[&c].clone();
                        let c = w.id();
                        w.cells.insert(c, v);
                        St::Own(c)
                    }
                    x => x,
                };
            } else {
                refused("taking over a tensor of another shape or device, or with memory already", r)?;
            }
        }
        12 => {
            if !w.free(i) {
                return Ok(());
            }
            let ok = s.chance(5, 6);
            let to = if ok { other_factoring(s, &w.slots[i].sh) } else { small(s) };
            ctx.desc(|| format!("shape of #{} becomes {}", w.slots[i].id, to.show()));
            let r = guarded(|| w.slots[i].t.update_shape(to_shape(&to)));
            if to.size() == w.slots[i].sh.size() {
                r?;
                w.slots[i].sh = to;
            } else {
                refused("changing to a shape of another size", r)?;
            }
        }
        13 => {
            let Some(v) = w.vals(i).cloned() else { return Ok(()) };
            let to = other_factoring(s, &w.slots[i].sh);
            let x = &w.slots[i];
            let (t, sh) = match s.below(3) {
                0 => (x.t.reshape(to_shape(&to)), to),
                1 => (x.t.flatten(), Sh::new(&[x.sh.volume() as u32], x.sh.batch)),
                _ => (&*x.t * 1.0, x.sh.clone()),
            };
            ctx.desc(|| format!("#{} recomputed from #{} as {}", w.next + 2, x.id, sh.show()));
            let d = x.dev;
            // NaN payloads may change in arithmetic
            let v = if v.iter().any(|x| x.is_nan()) { None } else { Some(v) };
            w.add_own(t, sh, d, v);
        }
        14 => {
            if !w.free(i) {
                return Ok(());
            }
            ctx.desc(|| format!("move #{} to device {}", w.slots[i].id, d));
            let r = guarded(|| w.slots[i].t.move_to_device(dv(d)));
            match w.slots[i].st.clone() {
                St::Host(v) if v.len() == w.slots[i].sh.size() => {
                    r?;
                    let c = w.id();
                    w.cells.insert(c, Some(v));
                    w.slots[i].st = St::Own(c);
                    w.slots[i].dev = d;
                }
                _ => refused("moving a tensor that is not on the host, or whose values do not fit", r)?,
            }
        }
        15 => {
            if !w.free(i) {
                return Ok(());
            }
            ctx.desc(|| format!("drop #{}", w.slots[i].id));
            w.remove(i);
        }
        16 => {
            // the structs trade places
            let j = s.index(n);
            if i == j || !w.free(i) || !w.free(j) {
                return Ok(());
            }
            ctx.desc(|| format!("#{} and #{} swap", w.slots[i].id, w.slots[j].id));
            let (lo, hi) = (i.min(j), i.max(j));
            let (a, b) = w.slots.split_at_mut(hi);
            std::mem::swap(&mut *a[lo].t, &mut *b[0].t);
            let (x, y) = (&mut a[lo], &mut b[0]);
            std::mem::swap(&mut x.st, &mut y.st);
            std::mem::swap(&mut x.sh, &mut y.sh);
            std::mem::swap(&mut x.dev, &mut y.dev);
        }
        17 => {
            // arithmetic in place
            if !w.free(i) || w.vals(i).is_none() {
                return Ok(());
            }
            let c = w.cell(i).unwrap();
            let mut v = w.vals(i).unwrap().clone();
            let j = s.index(n);
            if j != i && w.slots[j].sh == w.slots[i].sh && w.slots[j].dev == w.slots[i].dev && w.vals(j).is_some() {
                ctx.desc(|| format!("#{} += #{}", w.slots[i].id, w.slots[j].id));
                let src = long(&w.slots[j].t);
                *w.slots[i].t += src;
                let u = w.vals(j).unwrap();
                v.iter_mut().zip(u).for_each(|(a, b)| *a += b);
            } else {
                ctx.desc(|| format!("#{} *= 0.5", w.slots[i].id));
                *w.slots[i].t *= 0.5;
                v.iter_mut().for_each(|a| *a *= 0.5);
            }
            let v = if v.iter().any(|x| x.is_nan()) {
                // keep the history defined
                let z = vec![1.0; v.len()];
                let d = w.slots[i].dev;
                dv(d).reset_tensor_by_slice(&mut w.slots[i].t, &z);
                z
            } else {
                v
            };
            w.cells.insert(c, Some(v));
        }
        18 => {
            // into a parameter and out again
            if !w.free(i) || w.vals(i).is_none() || w.slots[i].sh.batch != 1 {
                return Ok(());
            }
            ctx.desc(|| format!("#{} as value of a parameter, read out as #{}", w.slots[i].id, w.next + 2));
            let v = w.vals(i).unwrap().clone();
            let (sh, d) = (w.slots[i].sh.clone(), w.slots[i].dev);
            let empty = Tensor::new(dv(d), to_shape(&sh));
            let t = std::mem::replace(&mut *w.slots[i].t, empty);
            let g = dv(d).new_tensor_by_constant(to_shape(&sh), 7.0);
            let mut p = Parameter::new(t, g);
            let out = Tensor::from(&mut p);
            p.reset_gradient();
            same("gradient after reset_gradient", &p.gradient.to_vec(), &vec![0.0; v.len()])?;
            same("value after reset_gradient", &p.value.to_vec(), &v)?;
            let Parameter { value, .. } = p;
            *w.slots[i].t = value;
            w.add_own(out, sh, d, Some(v));
        }
        19 => {
            // graphs over a view and over a tensor handed in
            let Some(v) = w.vals(i).cloned() else { return Ok(()) };
            if v.iter().any(|x| x.is_nan()) {
                return Ok(());
            }
            ctx.desc(|| format!("a graph over #{}", w.slots[i].id));
            let a: Node = Node::from(long(&w.slots[i].t));
            let b: Node = Node::from(dv(w.slots[i].dev).copy_tensor(&w.slots[i].t));
            let y = &a * 2.0 - &b;
            let got = y.to_vec();
            let want: Vec<f32> = v.iter().map(|x| x * 2.0 - x).collect();
            if want.iter().all(|x| !x.is_nan()) {
                check_exact("graph", &got, &want)?;
            }
            if s.bool() {
                y.backward();
                check_exact("gradient", &a.inner_gradient().to_vec(), &vec![2.0; v.len()])?;
            }
        }
        _ => {
            // two devices and the wrong one
            let Some(j) = (0..n).find(|&j| w.slots[j].dev != w.slots[i].dev && w.vals(j).is_some()) else { return Ok(()) };
            if w.vals(i).is_none() || w.slots[i].dev == w.slots[j].dev {
                return Ok(());
            }
            ctx.desc(|| format!("#{} + #{} on different devices", w.slots[i].id, w.slots[j].id));
            let r = guarded(|| {
                let _ = &*w.slots[i].t + &*w.slots[j].t;
            });
            refused("arithmetic between devices", r)?;
        }
    }
    Ok(())
}

/// usually one of the same shape, so that the operation is accepted
fn pick_mate(w: &World, i: usize, s: &mut Src) -> usize {
    let n = w.slots.len();
    if s.chance(4, 5) {
        let m: Vec<usize> = (0..n).filter(|&j| j != i && w.slots[j].sh == w.slots[i].sh && w.slots[j].dev == w.slots[i].dev).collect();
        if !m.is_empty() {
            return *s.pick(&m);
        }
    }
    s.index(n)
}

fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let nd = s.range(1, 2) as usize;
    let devs: Vec<(*mut Device<'static>, Option<Shared>)> = (0..nd)
        .map(|_| {
            if s.chance(1, 4) {
                (Box::into_raw(Box::new(D::Naive::new())), None)
            } else {
                let (d, st) = rec_device(s.bool());
                (Box::into_raw(Box::new(d)), Some(st))
            }
        })
        .collect();
    let mut w = World::default();
    let mut done = 0;
    let mut r = Ok(());
    for st in &case.steps {
        let mut s = Src::new(st);
        r = step(&mut w, &devs, &mut s, ctx).and_then(|_| audit(&w, &devs));
        if r.is_err() {
            break;
        }
        done += 1;
    }
    if r.is_err() {
        // the process may hold inconsistent memory: leave everything where it is
        std::mem::forget(w);
        return r;
    }
    if done >= 6 && w.next > 4 {
        ctx.nontrivial();
    }
    // views first
    let mut s = Src::new(&case.head[4..]);
    while !w.slots.is_empty() {
        let free: Vec<usize> = (0..w.slots.len()).filter(|&i| w.free(i)).collect();
        let i = *s.pick(&free);
        w.remove(i);
        audit(&w, &devs)?;
    }
    for (d, st) in devs {
        drop(unsafe { Box::from_raw(d) });
        if let Some(st) = st {
            settled(&st)?;
        }
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C31",
        rule: "history: up to 40 operations on any number of tensors on one or two devices (plain or recording, with guard zones): creation from values, constants, without memory and on the host, allocation, the three kinds of reset, copies (also across devices), views and views of views, reference, take-over, change of shape, reshape, arithmetic in place, moves to a device, swaps, passage through parameters and graphs, drops, and operations that must be refused; after every operation shape, memory and every element of every live tensor equal the reference model, owners have distinct buffers, views show their referent's; at the end everything goes back to the backend. Non-trivial: at least six operations done.",
        assumptions: &["viewed tensors are only read until their views are gone, as the borrow rules demand", "contents of allocated but unwritten memory are not claimed"],
        subs: vec![Sub { name: "history", head: 24, steps: (1, 40), step_len: 30, quick: 240_000, thorough: 9_600_000, run: history }],
    })
}
