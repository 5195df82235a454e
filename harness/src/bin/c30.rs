//! Large graphs with exact integer values, against an integer reference.
use harness::*;

type N = Node<'static, 'static>;

/// reference: what each node computes, elementwise on vectors of `m` values
enum R {
    Leaf(usize),
    /// coefficients on earlier nodes and a constant
    Lin(Vec<(usize, i64)>, i64),
}

#[derive(Default)]
struct World {
    nodes: Vec<Option<N>>,
    refs: Vec<R>,
    leaves: Vec<Vec<i64>>,
}

impl World {
    fn leaf(&mut self, dev: &'static Device<'static>, v: Vec<i64>) -> usize {
        let f: Vec<f32> = v.iter().map(|&x| x as f32).collect();
        let t = dev.new_tensor_by_slice(Shape::new(&[v.len() as u32], 1), &f);
        self.leaves.push(v);
        self.push(Node::from(t), R::Leaf(self.leaves.len() - 1))
    }
    fn push(&mut self, n: N, r: R) -> usize {
        self.nodes.push(Some(n));
        self.refs.push(r);
        self.refs.len() - 1
    }
    fn n(&self, i: usize) -> &N {
        self.nodes[i].as_ref().unwrap()
    }
    fn unary(&mut self, a: usize, s: &mut Rng, m: u32) -> usize {
        let (n, c, k) = match s.below(11) {
            0 => (-self.n(a), -1, 0),
            1 => (self.n(a) + 3.0, 1, 3),
            2 => (self.n(a) - 2.0, 1, -2),
            3 => (1.0 - self.n(a), -1, 1),
            4 => (self.n(a) * -1.0, -1, 0),
            5 => (self.n(a).reshape(Shape::new(&[1, m], 1)).flatten(), 1, 0),
            6 => (self.n(a).transpose().transpose(), 1, 0),
            7 => (self.n(a).slice(0, 0, m), 1, 0),
            8 => ((self.n(a) * 2.0) / 2.0, 1, 0),
            9 => (self.n(a).sum(2), 1, 0),
            _ => (self.n(a).broadcast(1, 2).mean(1), 1, 0),
        };
        self.push(n, R::Lin(vec![(a, c)], k))
    }
    /// through an operation with several results
    fn through(&mut self, a: usize, b: usize, s: &mut Rng) -> (usize, usize) {
        let mut v = match s.below(3) {
            0 => Node::concat(&[self.n(a), self.n(b)], 1).split(1, 2),
            1 => Node::batch_concat(&[self.n(a), self.n(b)]).batch_split(2),
            _ => Node::concat(&[self.n(a), self.n(b)], 0).split(0, 2),
        };
        let y = v.pop().unwrap();
        let x = v.pop().unwrap();
        (self.push(x, R::Lin(vec![(a, 1)], 0)), self.push(y, R::Lin(vec![(b, 1)], 0)))
    }
    fn values(&self, m: usize) -> Vec<Vec<i64>> {
        let mut v: Vec<Vec<i64>> = Vec::with_capacity(self.refs.len());
        for r in &self.refs {
            let x = match r {
                R::Leaf(l) => self.leaves[*l].clone(),
                R::Lin(ts, k) => (0..m).map(|e| k + ts.iter().map(|(i, c)| c * v[*i][e]).sum::<i64>()).collect(),
            };
            v.push(x);
        }
        v
    }
    /// gradient of the root with respect to every node (the same for every element)
    fn grads(&self, root: usize) -> Vec<i64> {
        let mut g = vec![0i64; self.refs.len()];
        g[root] = 1;
        for i in (0..=root).rev() {
            if g[i] == 0 {
                continue;
            }
            if let R::Lin(ts, _) = &self.refs[i] {
                for (j, c) in ts {
                    g[*j] += c * g[i];
                }
            }
        }
        g
    }
}

/// choices of one case beyond its tape
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u32) -> u32 {
        self.0 = mix(self.0);
        ((self.0 >> 32) * n as u64 >> 32) as u32
    }
    fn index(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
}

/// how many of the nodes stay held while the graph grows
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hold {
    All,
    Some,
    Ends,
}

fn size(s: &mut Src, small: u32, big: u32) -> u32 {
    match s.weighted(&[4, 3, 3]) {
        0 => s.range(1, 60),
        1 => s.range(60, small),
        _ => s.range(small, big),
    }
}

/// evaluates, differentiates and releases a graph; values and gradients of every node that is held
fn settle(w: &mut World, roots: &[usize], m: usize, s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let vals = w.values(m);
    let big = 1i64 << 24;
    if vals.iter().flatten().any(|x| x.abs() >= big) {
        ctx.skip("values beyond exact range");
        return Ok(());
    }
    let how = s.weighted(&[1, 2, 6]);
    let order = s.below(4);
    ctx.desc(|| format!("{} roots; {}; released in order {}", roots.len(), ["never evaluated", "evaluated", "evaluated and differentiated"][how], order));
    if how >= 1 {
        // sometimes inner nodes first
        if s.bool() {
            let i = s.index(w.nodes.len());
            if let Some(n) = &w.nodes[i] {
                n.forward();
            }
        }
        let ck = |w: &World, i: usize| -> Result<(), String> {
            if let Some(n) = &w.nodes[i] {
                let got = n.to_vec();
                for (e, (g, x)) in got.iter().zip(&vals[i]).enumerate() {
                    if *g as f64 != *x as f64 {
                        return Err(format!("value of node {} element {} is {}, expected {}", i, e, g, x));
                    }
                }
            }
            Ok(())
        };
        for &r in roots {
            ck(w, r)?;
        }
        if how == 2 {
            for &r in roots {
                let g = w.grads(r);
                if g.iter().any(|x| x.abs() >= big) {
                    ctx.skip("gradients beyond exact range");
                    continue;
                }
                for _ in 0..s.range(1, 2) {
                    w.n(r).backward();
                }
                let mut cone = vec![false; w.refs.len()];
                cone[r] = true;
                for i in (0..=r).rev() {
                    if cone[i] {
                        if let R::Lin(ts, _) = &w.refs[i] {
                            ts.iter().for_each(|t| cone[t.0] = true);
                        }
                    }
                }
                for i in 0..w.nodes.len() {
                    let Some(n) = &w.nodes[i] else { continue };
                    if !cone[i] {
                        continue;
                    }
                    for (e, x) in n.inner_gradient().to_vec().iter().enumerate() {
                        if *x as f64 != g[i] as f64 {
                            return Err(format!("gradient of node {} element {} is {}, expected {}", i, e, x, g[i]));
                        }
                    }
                }
            }
        }
        // values of nodes held, without walking the graph again for each
        for i in 0..w.nodes.len() {
            let Some(n) = &w.nodes[i] else { continue };
            let t = n.inner_value();
            if t.valid() {
                for (e, (g, x)) in t.to_vec().iter().zip(&vals[i]).enumerate() {
                    if *g as f64 != *x as f64 {
                        return Err(format!("value of inner node {} element {} is {}, expected {}", i, e, g, x));
                    }
                }
            }
        }
    }
    let mut all: Vec<N> = w.nodes.iter_mut().filter_map(|n| n.take()).collect();
    match order {
        0 => drop(all),
        1 => {
            while let Some(n) = all.pop() {
                drop(n);
            }
        }
        2 => {
            let mut r = Rng(s.word() as u64 + 1);
            while !all.is_empty() {
                let i = r.index(all.len());
                drop(all.swap_remove(i));
            }
        }
        _ => {
            // the middle first, the ends last
            let n = all.len();
            let tail = all.split_off(n - n.min(1));
            drop(all);
            drop(tail);
        }
    }
    Ok(())
}

/// runs on the stack an ordinary thread has, on a device that must get everything back
fn in_thread(rec: bool, f: impl FnOnce(&'static Device<'static>) -> Result<(), String> + Send) -> Result<(), String> {
    let (dev, st) = if rec {
        let (d, st) = rec_device(false);
        (d, Some(st))
    } else {
        (D::Naive::new(), None)
    };
    let raw = Box::into_raw(Box::new(dev)) as usize;
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || guarded(|| f(unsafe { &*(raw as *const Device<'static>) })))
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("the thread died".into()))
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => return Err(e),
    }
    drop(unsafe { Box::from_raw(raw as *mut Device<'static>) });
    if let Some(st) = st {
        settled(&st)?;
    }
    Ok(())
}

/// two or three lanes mixed over many steps: deep, with exponentially many paths
fn lanes(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s0 = Src::new(&case.head);
    let rec = s0.chance(1, 8);
    let steps = size(&mut s0, 4000, if rec { 10_000 } else { 70_000 });
    let k = s0.range(1, 3) as usize;
    let m = s0.range(1, 3) as usize;
    let hold = *s0.pick(&[Hold::Ends, Hold::All, Hold::Some]);
    let style = s0.below(4); // chain, mixed, mostly sums, braided through multi-result operations
    let bound: i64 = if k == 3 { 60 } else { 900 };
    let seed = s0.word() as u64 + 1;
    ctx.desc(|| format!("{} steps on {} lanes of {} elements, style {}, holding {:?}, seed {}", steps, k, m, style, hold, seed));
    ctx.label(format!("style {}", style));
    if steps >= 1000 {
        ctx.nontrivial();
        ctx.label("over 1000 steps");
    }
    if steps >= 50_000 {
        ctx.label("over 50000 steps");
    }
    let tape: Vec<u32> = case.head[8..].to_vec();
    in_thread(rec, |dev| {
        let mut s = Src::new(&tape);
        let mut r = Rng(seed);
        let mut w = World::default();
        let mut lane: Vec<usize> = vec![];
        // each lane as combination of the leaves plus a constant
        let mut mat = vec![vec![0i64; k]; k];
        for l in 0..k {
            let v = (0..m).map(|_| r.below(13) as i64 - 6).collect();
            lane.push(w.leaf(dev, v));
            mat[l][l] = 1;
        }
        for _ in 0..steps {
            let a = r.index(k);
            let b = r.index(k);
            let sum = match style {
                0 => false,
                2 => r.below(10) < 8,
                _ => r.below(10) < 4,
            };
            let old = lane[a];
            if style == 3 && a != b && r.below(3) == 0 {
                let (x, y) = w.through(lane[a], lane[b], &mut r);
                lane[a] = x;
                lane[b] = y;
            } else if sum && a != b {
                // lane a becomes a + b or a - b, whichever stays small
                let mut done = false;
                let flip = r.below(2) == 0;
                for sign in if flip { [1i64, -1] } else { [-1, 1] } {
                    let row: Vec<i64> = (0..k).map(|j| mat[a][j] + sign * mat[b][j]).collect();
                    if row.iter().all(|x| x.abs() <= bound) {
                        let n = if sign == 1 { w.n(lane[a]) + w.n(lane[b]) } else { w.n(lane[a]) - w.n(lane[b]) };
                        lane[a] = w.push(n, R::Lin(vec![(lane[a], 1), (lane[b], sign)], 0));
                        mat[a] = row;
                        done = true;
                        break;
                    }
                }
                if !done {
                    lane[a] = w.unary(lane[a], &mut r, m as u32);
                }
            } else if style != 0 && r.below(6) == 0 {
                // doubled and halved: two paths, the same value
                let x = lane[a];
                let n = match r.below(3) {
                    0 => (w.n(x) + w.n(x)) * 0.5,
                    1 => w.n(x) * 2.0 - w.n(x),
                    _ => w.n(x) - (w.n(x) - w.n(x)),
                };
                lane[a] = w.push(n, R::Lin(vec![(x, 1)], 0));
            } else {
                lane[a] = w.unary(lane[a], &mut r, m as u32);
            }
            // unary steps change signs
            let keep = match hold {
                Hold::All => true,
                Hold::Some => r.below(5) == 0,
                Hold::Ends => false,
            };
            // the signs of the lane may have changed: only magnitudes matter for the bound
            if let R::Lin(ts, _) = &w.refs[lane[a]] {
                if ts.len() == 1 && ts[0].1 == -1 {
                    mat[a].iter_mut().for_each(|x| *x = -*x);
                }
            }
            if !keep && !lane.contains(&old) && !matches!(w.refs[old], R::Leaf(_)) {
                w.nodes[old] = None;
            }
        }
        let mut roots = vec![lane[0]];
        if k > 1 && s.bool() {
            roots.push(lane[1]);
        }
        settle(&mut w, &roots, m, &mut s, ctx)
    })
}

/// one operation with very many operands, one value with very many uses
fn wide(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s0 = Src::new(&case.head);
    let rec = s0.chance(1, 8);
    let n = size(&mut s0, 2000, if rec { 5000 } else { 30_000 }).max(2) as usize;
    let m = s0.range(1, 2) as usize;
    let kind = s0.below(7);
    let seed = s0.word() as u64 + 1;
    ctx.desc(|| format!("kind {} width {} elements {} seed {}", kind, n, m, seed));
    ctx.label(format!("kind {}", kind));
    if n >= 500 {
        ctx.nontrivial();
    }
    if n >= 10_000 {
        ctx.label("over 10000 wide");
    }
    let tape: Vec<u32> = case.head[8..].to_vec();
    in_thread(rec, |dev| {
        let mut s = Src::new(&tape);
        let mut r = Rng(seed);
        let mut w = World::default();
        let nl = match kind {
            0 | 1 | 2 => n,
            _ => s.range(1, 3) as usize,
        };
        let leaves: Vec<usize> = (0..nl)
            .map(|_| {
                let v = (0..m).map(|_| r.below(9) as i64 - 4).collect();
                w.leaf(dev, v)
            })
            .collect();
        // operands: distinct leaves, or few leaves used over and over, plain or through a step
        // some operands lie deeper than their fellows, wherever they stand in the row
        let deep: std::collections::BTreeMap<usize, usize> = (0..s.below(5))
            .map(|_| {
                let at = match s.below(3) {
                    0 => n - 1 - r.index(n.min(4)),
                    1 => r.index(n.min(4)),
                    _ => r.index(n),
                };
                (at, s.range(1, 40) as usize)
            })
            .collect();
        let ops: Vec<usize> = (0..n)
            .map(|i| {
                let mut l = if nl == n { leaves[i] } else { leaves[r.index(nl)] };
                for _ in 0..deep.get(&i).copied().unwrap_or(0) {
                    l = w.unary(l, &mut r, m as u32);
                }
                if kind == 5 {
                    w.unary(l, &mut r, m as u32)
                } else {
                    l
                }
            })
            .collect();
        let all = |w: &World| -> N {
            let xs: Vec<&N> = ops.iter().map(|&i| w.n(i)).collect();
            match kind {
                0 | 3 | 5 => Node::concat(&xs, 1).sum(1),
                1 => Node::slice_sum(&xs),
                2 | 4 => Node::batch_concat(&xs).batch_sum(),
                _ => Node::concat(&xs, 3).sum(3),
            }
        };
        let y = all(&w);
        let mut cs: std::collections::BTreeMap<usize, i64> = Default::default();
        for &o in &ops {
            *cs.entry(o).or_default() += 1;
        }
        let mut root = w.push(y, R::Lin(cs.into_iter().collect(), 0));
        if kind == 6 {
            // apart again, many results, and summed in a tree
            let parts = {
                let xs: Vec<&N> = ops.iter().map(|&i| w.n(i)).collect();
                Node::concat(&xs, 1).split(1, n as u32)
            };
            let mut ids: Vec<usize> = parts.into_iter().zip(&ops).map(|(p, &o)| w.push(p, R::Lin(vec![(o, 1)], 0))).collect();
            while ids.len() > 1 {
                let mut next = vec![];
                for c in ids.chunks(2) {
                    if let [a, b] = c {
                        let y = w.n(*a) + w.n(*b);
                        next.push(w.push(y, R::Lin(vec![(*a, 1), (*b, 1)], 0)));
                    } else {
                        next.push(c[0]);
                    }
                }
                ids = next;
            }
            root = ids[0];
        } else if kind >= 3 && s.bool() {
            // every use on its own, added up one after another
            let mut acc = ops[0];
            for &o in &ops[1..] {
                let y = w.n(acc) + w.n(o);
                acc = w.push(y, R::Lin(vec![(acc, 1), (o, 1)], 0));
            }
            root = acc;
        }
        if s.bool() {
            // nothing but the root and the leaves is held
            let keep: Vec<bool> = (0..w.nodes.len()).map(|i| i == root || matches!(w.refs[i], R::Leaf(_))).collect();
            for (x, k) in w.nodes.iter_mut().zip(keep) {
                if !k {
                    *x = None;
                }
            }
        }
        settle(&mut w, &[root], m, &mut s, ctx)
    })
}

/// y -> y + y over and over: more paths than can ever be walked
fn doubling(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let levels = size(&mut s, 1000, 30_000);
    let seed = s.word() as u64 + 1;
    let fan = s.range(2, 4);
    let exact = s.range(0, 100);
    ctx.desc(|| format!("{} levels, {} branches, gradient scale {} seed {}", levels, fan, exact, seed));
    ctx.label("doubling");
    if levels >= 30 {
        ctx.nontrivial();
    }
    let tape: Vec<u32> = case.head[8..].to_vec();
    in_thread(false, |dev| {
        let mut s = Src::new(&tape);
        let mut r = Rng(seed);
        let v = (r.below(9) as f32) - 4.0;
        let x: N = Node::from(dev.new_tensor_by_constant(Shape::new(&[2], 2), v));
        let mut y = &x + 0.0;
        let mut e = 0i32; // y = v * 2^e
        for i in 0..levels {
            // powers of two stay exact within their range
            let up = if e > 60 { false } else if e < -60 { true } else { r.below(2) == 0 };
            match fan {
                2 => {
                    if up {
                        y = &y + &y;
                        e += 1;
                    } else {
                        let (a, b) = (&y * 0.25, &y / 4.0);
                        y = a + b;
                        e -= 1;
                    }
                }
                3 => {
                    let z = &y + &y;
                    if up {
                        y = z + 0.0;
                        e += 1;
                    } else {
                        y = (z + &y + &y) * 0.125;
                        e -= 1;
                    }
                }
                _ => {
                    y = Node::concat(&[&y, &y, &y, &y], 3).sum(3) * if up { 0.5 } else { 0.125 };
                    e += if up { 1 } else { -1 };
                }
            }
            if i % 1000 == 7 && levels < 5000 {
                y.forward();
            }
        }
        let want = v * 2f32.powi(e);
        check_exact("value", &y.to_vec(), &vec![want; 4])?;
        if s.chance(3, 4) {
            y.backward();
            check_exact("gradient", &x.inner_gradient().to_vec(), &vec![2f32.powi(e); 4])?;
        }
        if s.bool() {
            drop(x);
            drop(y);
        } else {
            drop(y);
            drop(x);
        }
        Ok(())
    })
}

/// processor time this thread has used, in seconds
fn thread_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// builds, evaluates, differentiates and releases a graph of `n` operations; the time it took
fn timed(dev: &'static Device<'static>, kind: u32, n: u32, held: bool, back: u32) -> Result<f64, String> {
    let t0 = thread_time();
    let leaf = || Node::from(dev.new_tensor_by_constant(Shape::new(&[1], 1), 0.0));
    let x: N = leaf();
    let mut kept: Vec<N> = vec![];
    let tree = |mut v: Vec<N>, kept: &mut Vec<N>| -> N {
        while v.len() > 1 {
            let next: Vec<N> = v.chunks(2).map(|c| if c.len() == 2 { &c[0] + &c[1] } else { &c[0] + 0.0 }).collect();
            let old = std::mem::replace(&mut v, next);
            if held {
                kept.extend(old);
            }
        }
        v.pop().unwrap()
    };
    let y: N = match kind {
        0 | 1 | 2 => {
            let mut y = leaf();
            for _ in 0..n {
                let z = match kind {
                    0 => &y + &x,
                    1 => -&y,
                    _ => (&y + &y) * 0.5,
                };
                let old = std::mem::replace(&mut y, z);
                if held {
                    kept.push(old);
                }
            }
            y
        }
        3 => {
            // many operands, each of its own
            let v: Vec<N> = (0..n).map(|_| -&leaf()).collect();
            let y = Node::concat(&v.iter().collect::<Vec<_>>(), 0).sum(0);
            if held {
                kept = v;
            }
            y
        }
        4 => {
            // many users of one value
            let v: Vec<N> = (0..n).map(|_| &x + 1.0).collect();
            tree(v, &mut kept)
        }
        5 => {
            // many results of one operation
            let v = x.broadcast(0, n / 2).split(0, n / 2);
            tree(v, &mut kept)
        }
        _ => {
            // many operands and all of them used again one after another
            let v: Vec<N> = (0..n / 2).map(|_| leaf()).collect();
            let mut y = leaf();
            for z in &v {
                let w = &y + z;
                let old = std::mem::replace(&mut y, w);
                if held {
                    kept.push(old);
                }
            }
            y
        }
    };
    y.forward();
    for _ in 0..back {
        y.backward();
    }
    if back > 0 && kind == 0 {
        check_exact("gradient", &x.inner_gradient().to_vec(), &[n as f32])?;
    }
    if held {
        drop(y);
        drop(kept);
    } else {
        drop(kept);
        drop(y);
    }
    drop(x);
    Ok(thread_time() - t0)
}

/// the time a graph takes grows with its size, not with the square of it
fn time(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = s.below(7);
    let held = s.bool();
    let back = s.weighted(&[1, 5, 1]) as u32;
    let n = s.range(8_000, 10_000) * 2;
    ctx.desc(|| format!("kind {} held {} {} backward passes, {} operations and 4 and 16 times as many", kind, held, back, n));
    ctx.label(format!("kind {}", kind));
    ctx.nontrivial();
    in_thread(false, |dev| {
        // the first round also warms up the memory
        timed(dev, kind, n, held, back)?;
        let t1 = timed(dev, kind, n, held, back)?.max(1e-4);
        for (f, limit) in [(4u32, 10.0), (16, 60.0)] {
            let t = timed(dev, kind, f * n, held, back)?;
            if t > 3.0 && t > limit * t1 {
                return Err(format!("{} operations take {:.3} s of processor time, {} operations take {:.1} s", n, t1, f * n, t));
            }
        }
        Ok(())
    })
}

fn main() {
    run_main(Check {
        id: "C30",
        rule: "lanes: one to three values carried through up to 70 000 random steps (over 200 000 operators; sums, differences, changes of sign, constants, movements, operations with several results) with integer values that stay exact; value and gradient of every node held against an integer reference, on a 2 MB stack; evaluated, differentiated once or twice or never, released in four orders; non-trivial from 1000 steps. wide: up to 30 000 operands or uses or results; non-trivial from 500. doubling: up to 30 000 levels of two to four paths each; non-trivial from 30. time: graphs of seven forms with up to 320 000 operations, whose processor time must not grow like the square of their size. An eighth of the graphs live on the recording backend, which must get every buffer back.",
        assumptions: &["values and gradients are integers below 2^24 or powers of two, so that every order of summation is exact"],
        subs: vec![
            Sub { name: "lanes", head: 24, steps: (0, 0), step_len: 0, quick: 300, thorough: 15_000, run: lanes },
            Sub { name: "wide", head: 48, steps: (0, 0), step_len: 0, quick: 300, thorough: 15_000, run: wide },
            Sub { name: "doubling", head: 24, steps: (0, 0), step_len: 0, quick: 300, thorough: 15_000, run: doubling },
            Sub { name: "time", head: 8, steps: (0, 0), step_len: 0, quick: 24, thorough: 480, run: time },
        ],
    })
}
