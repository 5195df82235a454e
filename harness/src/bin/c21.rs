use harness::*;
use std::sync::Barrier;

type Shot = Vec<Vec<f32>>;

fn same(what: &str, got: &Shot, want: &Shot) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} values, expected {}", what, got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits() && !(x.is_nan() && y.is_nan())) {
            let k = a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits());
            return Err(format!("{}: value {} differs from the single-threaded run at {:?}: {:?} / {:?}", what, i, k, a.iter().take(8).collect::<Vec<_>>(), b.iter().take(8).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// one thread's work: a program over its own leaves and the shared ones, eagerly, lazily with a
/// backward pass, and a few steps of training
struct Job {
    prog: Prog,
    rounds: u32,
    mode: u32,
}

fn work<'d>(dev: &'d Device<'d>, shared: &[Tensor<'d>], job: &Job) -> Shot {
    let p = &job.prog;
    let mut out: Shot = vec![];
    // leaves whose shape a shared tensor has are read from there
    let from_shared = |i: usize| shared.iter().find(|t| from_shape(t.shape()) == p.leaves[i].0);
    if job.mode != 1 {
        let mut v: Vec<Tensor> = vec![];
        for i in 0..p.leaves.len() {
            v.push(match from_shared(i) {
                Some(t) => Tensor::from(t),
                None => mk(dev, &p.leaves[i].0, &p.leaves[i].1),
            });
        }
        for st in &p.steps {
            let r = {
                let a: Vec<&Tensor> = st.args.iter().map(|&i| &v[i]).collect();
                apply_tensor(&st.op, &a)
            };
            v.extend(r);
        }
        out.extend(v.iter().map(|t| t.to_vec()));
    }
    if job.mode != 0 {
        let mut v: Vec<Node> = vec![];
        for i in 0..p.leaves.len() {
            v.push(match from_shared(i) {
                Some(t) => Node::from(t),
                None => Node::from(mk(dev, &p.leaves[i].0, &p.leaves[i].1)),
            });
        }
        for st in &p.steps {
            let r = {
                let a: Vec<&Node> = st.args.iter().map(|&i| &v[i]).collect();
                apply_node(&st.op, &a)
            };
            v.extend(r);
        }
        v.last().unwrap().backward();
        let cone = p.cone(&[v.len() - 1]);
        for (i, n) in v.iter().enumerate() {
            out.push(n.to_vec());
            if i < p.leaves.len() && cone[i] && from_shared(i).is_none() {
                out.push(n.inner_gradient().to_vec());
            }
        }
    }
    if job.mode == 3 {
        let sh = &p.leaves[0].0.with_batch(1);
        let mut w = Parameter::new(mk(dev, sh, &vec![0.5; sh.size()]), dev.new_tensor_by_constant(to_shape(sh), 0.0));
        let mut o = pu::optimizers::Adam::new(0.1, 0.9, 0.999, 1e-8);
        o.configure_parameter(&mut w);
        for k in 0..3 {
            {
                let x = Node::from(mk(dev, &p.leaves[0].0, &p.leaves[0].1));
                let y = &x * &Node::from(&mut w) + (k as f32);
                y.tanh().backward();
            }
            o.update_parameter(1.0, &mut w);
        }
        out.push(w.value.to_vec());
    }
    out
}

fn run_threads<'d>(dev: &'d Device<'d>, shared: &[Tensor<'d>], jobs: &[Job], want: &[Shot]) -> Result<(), String> {
    let gate = Barrier::new(jobs.len());
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .zip(want)
            .enumerate()
            .map(|(i, (j, w))| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    guarded(|| {
                        for r in 0..j.rounds {
                            let got = work(dev, shared, j);
                            same(&format!("thread {} round {}", i, r), &got, w)?;
                            if r % 3 == 1 {
                                std::thread::yield_now();
                            }
                        }
                        Ok(())
                    })
                    .unwrap_or_else(|m| Err(format!("thread {} panicked: {}", i, m)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    res.into_iter().collect()
}

fn programs(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let nt = s.range(2, 8) as usize;
    let per = case.steps.len() / nt;
    let mut jobs = vec![];
    for i in 0..nt {
        let sub = Case { head: case.head[4 + 40 * i..4 + 40 * (i + 1)].to_vec(), steps: case.steps[i * per..(i + 1) * per].to_vec() };
        let b = prog::build(&sub, &Opts { max_size: 150, smooth: true, max_err: 1e-2, ..Opts::DEFAULT });
        jobs.push(Job { prog: b.prog, rounds: s.range(2, 6), mode: s.below(4) });
        ctx.desc(|| format!("thread {} mode {}: {}", i, jobs[i].mode, jobs[i].prog.show()));
    }
    let recording = s.bool();
    // tensors all threads read: shapes the programs use
    let mut shared_data: Vec<(Sh, Vec<f32>)> = vec![];
    for j in &jobs {
        let l = &j.prog.leaves[0];
        if s.bool() && !shared_data.iter().any(|x| x.0 == l.0) {
            shared_data.push(l.clone());
        }
    }
    ctx.desc(|| format!("{} threads, {} shared tensors, recording {}", nt, shared_data.len(), recording));
    if jobs.iter().filter(|j| j.prog.steps.len() >= 2).count() >= 2 {
        ctx.nontrivial();
    }
    // alone, one after another, each on a device of its own
    let want: Vec<Shot> = jobs
        .iter()
        .map(|j| {
            let d = D::Naive::new();
            let sh: Vec<Tensor> = shared_data.iter().map(|(a, b)| mk(&d, a, b)).collect();
            let r = work(&d, &sh, j);
            r
        })
        .collect();
    if recording {
        let (dev, st) = rec_device(true);
        with_state(&st, |x| x.jitter = Some(case.head[3] as u64));
        {
            let sh: Vec<Tensor> = shared_data.iter().map(|(a, b)| mk(&dev, a, b)).collect();
            run_threads(&dev, &sh, &jobs, &want)?;
            for (t, (_, d)) in sh.iter().zip(&shared_data) {
                check_bits("shared tensor afterwards", &t.to_vec(), d)?;
            }
            errors(&st)?;
        }
        drop(dev);
        settled(&st)
    } else {
        let dev = D::Naive::new();
        let sh: Vec<Tensor> = shared_data.iter().map(|(a, b)| mk(&dev, a, b)).collect();
        run_threads(&dev, &sh, &jobs, &want)?;
        for (t, (_, d)) in sh.iter().zip(&shared_data) {
            check_bits("shared tensor afterwards", &t.to_vec(), d)?;
        }
        Ok(())
    }
}

/// every thread takes, fills, reads and returns tensors of a few sizes; a tensor's contents are its
/// owner's alone
fn churn<'d>(dev: &'d Device<'d>, me: u64, z: u64, steps: u32, sizes: &[u32], hand: &std::sync::Mutex<Vec<(Tensor<'d>, f32)>>) -> Result<(), String> {
    let mut held: Vec<(Tensor, f32)> = vec![];
    let mut z = mix(z ^ me.wrapping_mul(0x1234_5671));
    let mut tag = 0u32;
    let check = |t: &Tensor, v: f32, when: &str| -> Result<(), String> {
        let d = t.to_vec();
        match d.iter().find(|&&x| x.to_bits() != v.to_bits()) {
            None => Ok(()),
            Some(x) => Err(format!("thread {} {}: a tensor it filled with {} holds {}", me, when, v, x)),
        }
    };
    for _ in 0..steps {
        z = mix(z);
        match z % 8 {
            0..=2 => {
                tag += 1;
                let v = (me * 100_000 + tag as u64) as f32;
                let n = sizes[(z >> 8) as usize % sizes.len()];
                let t = dev.new_tensor_by_constant(Shape::new(&[n], 1), v);
                held.push((t, v));
            }
            3 | 4 => {
                if !held.is_empty() {
                    let k = (z >> 8) as usize % held.len();
                    let (t, v) = held.swap_remove(k);
                    check(&t, v, "before dropping")?;
                }
            }
            5 => {
                // new tensors computed from held ones
                if !held.is_empty() {
                    let k = (z >> 8) as usize % held.len();
                    let y = &held[k].0 + 1.0f32;
                    let v = held[k].1 + 1.0;
                    check(&y, v, "after adding one")?;
                    held.push((y, v));
                }
            }
            6 => {
                // ownership moves between threads
                let mut h = hand.lock().unwrap_or_else(|e| e.into_inner());
                if z >> 9 & 1 == 0 || h.is_empty() {
                    if let Some(x) = held.pop() {
                        h.push(x);
                    }
                } else if let Some(x) = h.pop() {
                    drop(h);
                    check(&x.0, x.1, "after taking over from another thread")?;
                    held.push(x);
                }
            }
            _ => {
                for (t, v) in held.iter().take(3) {
                    check(t, *v, "later")?;
                }
                if z >> 9 & 3 == 0 {
                    std::thread::yield_now();
                }
            }
        }
        if held.len() > 24 {
            held.drain(..12);
        }
    }
    for (t, v) in &held {
        check(t, *v, "at the end")?;
    }
    Ok(())
}

fn memory(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let mut nt = s.range(2, 8) as u64;
    let mut steps = s.range(50, 1200);
    if steps % 16 == 0 {
        // many threads
        nt = 4 * nt + steps as u64 / 16 % 8;
        steps /= 4;
    }
    let sizes: Vec<u32> = (0..s.range(1, 4)).map(|_| *s.pick(&[1u32, 8, 64, 65, 128, 200, 1000])).collect();
    let mode = s.weighted(&[2, 1, 1]);
    let z = s.word() as u64;
    ctx.desc(|| format!("{} threads, {} steps, sizes {:?}, backend {}, seed {}", nt, steps, sizes, mode, z));
    ctx.nontrivial();
    let go = |dev: &Device<'static>| -> Result<(), String> {
        // SAFETY: every tensor is dropped before this closure returns
        let dev: &'static Device<'static> = unsafe { &*(dev as *const Device<'static>) };
        let hand = std::sync::Mutex::new(vec![]);
        let gate = Barrier::new(nt as usize);
        let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt)
                .map(|i| {
                    let (hand, gate, sizes) = (&hand, &gate, &sizes);
                    sc.spawn(move || {
                        gate.wait();
                        guarded(|| churn(dev, i + 1, z, if mode == 0 { steps } else { steps / 6 + 1 }, sizes, hand)).unwrap_or_else(|m| Err(format!("thread {} panicked: {}", i, m)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
        });
        res.into_iter().collect()
    };
    if mode == 0 {
        return go(&D::Naive::new());
    }
    let (dev, st) = rec_device(mode == 1);
    with_state(&st, |x| x.jitter = Some(z));
    go(&dev)?;
    drop(dev);
    settled(&st)
}

/// random tensors, initializers and argument errors in several threads
fn random(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let mut nt = s.range(2, 6) as usize;
    let n = if s.bool() { s.range(1, 300) } else { s.range(300, 5000) };
    let rounds = s.range(1, 20);
    let refusing = s.bool();
    if s.chance(1, 16) {
        nt = 4 * nt + rounds as usize % 8;
    }
    ctx.desc(|| format!("{} threads, {} elements, {} rounds, refusals {}", nt, n, rounds, refusing));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let dev = &dev;
    let firsts: std::sync::Mutex<Vec<[u32; 3]>> = std::sync::Mutex::new(vec![]);
    let firsts = &firsts;
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|i| {
                sc.spawn(move || {
                    guarded(|| {
                        let inside = |v: Vec<f32>, lo: f32, hi: f32| match v.iter().find(|&&x| !(x >= lo && x < hi)) {
                            Some(x) => Err(format!("thread {}: uniform number {} outside [{}, {})", i, x, lo, hi)),
                            None => Ok(()),
                        };
                        for r in 0..rounds {
                            let sh = Shape::new(&[n], 1);
                            let lo = i as f32 * 10.0;
                            inside(dev.random_uniform(sh, lo, lo + 1.0).to_vec(), lo, lo + 1.0)?;
                            let v = dev.random_bernoulli(sh, if i % 2 == 0 { 1.0 } else { 0.0 }).to_vec();
                            if v.iter().any(|&x| x != (1 - i % 2) as f32) {
                                return Err(format!("thread {}: certain coin shows something else", i));
                            }
                            let m = 100.0 * (i as f32 + 1.0);
                            let v = dev.random_normal(sh, m, 1.0).to_vec();
                            if v.iter().any(|&x| (x - m).abs() > 40.0) {
                                return Err(format!("thread {}: normal number far from its mean", i));
                            }
                            // nothing is left out, and no thread gets another one's numbers
                            let u = dev.random_uniform(sh, 0.0, 1.0).to_vec();
                            for (what, v) in [("normal", &v), ("uniform", &u)] {
                                if n >= 12 && v.iter().any(|&x| v.iter().take(12).all(|&y| x == y)) {
                                    return Err(format!("thread {}: {} numbers are all {}", i, what, v[0]));
                                }
                            }
                            firsts.lock().unwrap().push([u[0], u[n as usize / 2], u[n as usize - 1]].map(f32::to_bits));
                            if refusing && r % 3 == 0 && i == 0 {
                                let _ = guarded(|| dev.random_bernoulli(sh, 2.0));
                            }
                        }
                        Ok(())
                    })
                    .unwrap_or_else(|m| Err(format!("thread {} panicked: {}", i, m)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    res.into_iter().collect::<Result<(), String>>()?;
    // three 23-bit numbers agree by chance in one of 2^69 pairs
    let mut f = firsts.lock().unwrap().clone();
    let k = f.len();
    f.sort();
    f.dedup();
    if n >= 12 && f.len() != k {
        return Err("two draws gave the same numbers".into());
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C21",
        rule: "programs: 2-8 threads each run a random program (eager, lazy with backward, with training) several rounds on one device over own and shared tensors, half of them on a guarded backend with generated delays; every value bit for bit as in a single-threaded run on a device of its own; non-trivial when two threads have programs of two operations. memory: 2-8 threads, now and then up to 39, take, fill, compute, hand over, read and return tensors of shared size classes; each tensor keeps its owner's mark. random: threads draw from disjoint ranges while one makes refused calls.",
        assumptions: &["interleavings are those the operating system and the generated delays produce; they are not enumerated"],
        subs: vec![
            Sub { name: "mt_programs", head: 330, steps: (16, 64), step_len: 30, quick: 500, thorough: 30_000, run: programs },
            Sub { name: "mt_memory", head: 12, steps: (0, 0), step_len: 0, quick: 1600, thorough: 80_000, run: memory },
            Sub { name: "mt_random", head: 8, steps: (0, 0), step_len: 0, quick: 800, thorough: 20_000, run: random },
        ],
    })
}
