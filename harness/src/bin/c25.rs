use harness::stat::*;
use harness::*;
use prima_undine::initializers as I;
use prima_undine::{DefaultRandomizer, Initializer, Randomizer};

fn uniform(s: &mut Src) -> (f32, f32) {
    if s.bool() {
        let w = 10f32.powi(s.range(0, 16) as i32 - 8);
        let l = s.real(-2.0, 2.0) * w;
        return (l, l + s.real(0.05, 3.0) * w);
    }
    *s.pick(&[(0.0, 1.0), (-1.0, 1.0), (5.0, 6.0), (-3.0, -1.0), (-0.001, 0.002), (0.0, 1e6), (-1e20, 1e20), (-1e-20, 3e-20), (100.0, 100.5)])
}

fn normal(s: &mut Src) -> (f32, f32) {
    if s.bool() {
        let w = 10f32.powi(s.range(0, 16) as i32 - 8);
        return (s.real(-20.0, 20.0) * w, s.real(0.05, 3.0) * w);
    }
    *s.pick(&[(0.0, 1.0), (3.0, 0.5), (-10.0, 4.0), (0.0, 1e-3), (100.0, 1e4), (0.5, 0.0), (-1.0, 1e-2), (1e10, 1e9)])
}

fn coin(s: &mut Src) -> f32 {
    match s.below(4) {
        0 => return s.range(1, u32::MAX) as f32 / 4294967296.0,
        // rare, and nearly sure
        1 => return 0.5f32.powi(s.range(1, 14) as i32) * s.real(0.5, 1.0),
        2 => return 1.0 - 0.5f32.powi(s.range(1, 14) as i32) * s.real(0.5, 1.0),
        _ => {}
    }
    *s.pick(&[0.5f32, 0.0, 1.0, 0.1, 0.9, 0.25, 0.75, 0.01, 0.999, 0.3])
}

fn sizes(s: &mut Src, matrix: bool) -> (Sh, u32) {
    let l = [Lim::SMALL, Lim::MID, Lim::BIG][s.weighted(&[5, 3, 2])];
    let sh = if matrix { gen::matrix(s, l).with_batch(1) } else { gen::shape(s, l) };
    let n = sh.size() as u32;
    let most = match s.below(3) {
        0 => 6,
        1 => 100,
        _ => 400,
    };
    let rounds = (6000 / n).clamp(2, most);
    (sh, rounds)
}

fn tensors(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (sh, rounds) = sizes(&mut s, false);
    let d = match s.below(3) {
        0 => Dist::Bern(coin(&mut s)),
        1 => {
            let (a, b) = uniform(&mut s);
            Dist::Unif(a, b)
        }
        _ => {
            let (a, b) = normal(&mut s);
            Dist::Norm(a, b)
        }
    };
    let keep = s.bool();
    ctx.desc(|| format!("{} draws of {:?} shaped {}", rounds, d, sh.show()));
    if sh.size() > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let other = D::Naive::new();
    dirty(&dev, sh.size().max(64) * 2, 3, f32::NAN);
    let mut draws = vec![];
    let mut kept = vec![];
    for r in 0..rounds {
        let dv: &Device = if s.chance(1, 7) { &other } else { &dev };
        let x = to_shape(&sh);
        let t = match d {
            Dist::Bern(p) => dv.random_bernoulli(x, p),
            Dist::Unif(a, b) => dv.random_uniform(x, a, b),
            Dist::Norm(a, b) => dv.random_normal(x, a, b),
            _ => unreachable!(),
        };
        if from_shape(t.shape()) != sh {
            return Err(format!("shape {:?}, expected {}", t.shape(), sh.show()));
        }
        draws.push(t.to_vec());
        if keep && r < 20 {
            kept.push(t);
        }
    }
    for (t, v) in kept.iter().zip(&draws) {
        check_bits("a random tensor, later", &t.to_vec(), v)?;
    }
    judge(d, &sh, &draws)
}

fn initializers(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = s.below(4);
    let (sh, rounds) = sizes(&mut s, kind == 3);
    let sh = sh.with_batch(1);
    let (d, init): (Dist, Box<dyn Initializer>) = match kind {
        0 => {
            let k = if s.bool() { s.real(-1.0, 1.0) * 10f32.powi(s.range(0, 60) as i32 - 30) } else { *s.pick(&[0.0f32, 1.0, -2.5, 1e-30, 7e20, -0.0, f32::MAX, f32::MIN_POSITIVE]) };
            (Dist::Const(k), Box::new(I::Constant::new(k)))
        }
        1 => {
            let (a, b) = uniform(&mut s);
            (Dist::Unif(a, b), Box::new(I::Uniform::new(a, b)))
        }
        2 => {
            let (a, b) = normal(&mut s);
            (Dist::Norm(a, b), Box::new(I::Normal::new(a, b)))
        }
        _ => {
            let scale = if s.bool() { s.real(0.1, 1.0) * 10f32.powi(s.range(0, 12) as i32 - 6) } else { *s.pick(&[1.0f32, 0.5, 2.0, 10.0, 1e-3]) };
            let b = scale as f64 * (6.0 / (sh.d(0) as f64 + sh.d(1) as f64)).sqrt();
            // the bound is a rounded number itself
            let b = (b * (1.0 + 1e-6)) as f32;
            (Dist::Unif(-b, b), Box::new(I::XavierUniform::new(scale)))
        }
    };
    ctx.desc(|| format!("{} times initializer {} with {:?} for {}", rounds, kind, d, sh.show()));
    ctx.label(["constant", "uniform", "normal", "xavier"][kind as usize]);
    if sh.size() > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    dirty(&dev, sh.size().max(64) * 2, 3, f32::NAN);
    let mut draws = vec![];
    for r in 0..rounds {
        if r % 3 == 0 {
            let mut t = dev.new_tensor(to_shape(&sh));
            init.apply(&mut t);
            if !t.valid() {
                return Err("the tensor has no memory after initialization".into());
            }
            draws.push(t.to_vec());
        } else {
            let p = dev.new_parameter(to_shape(&sh), &*init);
            if p.gradient.to_vec().iter().any(|&x| x.to_bits() != 0) || from_shape(p.shape()) != sh || p.gradient.shape() != p.shape() || !p.stats.is_empty() {
                return Err(format!("new parameter of {} has shape {:?}, gradient {:?} {:?}", sh.show(), p.shape(), p.gradient.shape(), p.gradient.to_vec()));
            }
            draws.push(p.value.to_vec());
        }
    }
    judge(d, &sh, &draws)
}

fn filler(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let n = if s.chance(1, 3) { s.range(1, 2000) as usize } else { *s.pick(&[1usize, 2, 3, 7, 63, 64, 65, 500, 1500]) };
    let rounds = (4000 / n).clamp(2, 100);
    let d = match s.below(4) {
        0 => Dist::Bern(coin(&mut s)),
        1 => {
            let (a, b) = uniform(&mut s);
            Dist::Unif(a, b)
        }
        2 => {
            let (a, b) = normal(&mut s);
            Dist::Norm(a, b)
        }
        _ => {
            let m = if s.bool() { s.real(-2.0, 2.0) } else { *s.pick(&[0.0f32, 10.0, -10.0, 15.0, 25.0, -25.0, 40.0, -40.0]) };
            Dist::LogNorm(m, if s.bool() { s.real(0.05, 2.5) } else { *s.pick(&[1.0f32, 0.3, 2.0]) })
        }
    };
    ctx.desc(|| format!("{} fills of {} numbers with {:?}", rounds, n, d));
    ctx.nontrivial();
    let mut r = DefaultRandomizer::new();
    let mut draws = vec![];
    for _ in 0..rounds {
        let mut v = vec![f32::NAN; n];
        match d {
            Dist::Bern(p) => r.fill_bernoulli(p, &mut v),
            Dist::Unif(a, b) => r.fill_uniform(a, b, &mut v),
            Dist::Norm(a, b) => r.fill_normal(a, b, &mut v),
            Dist::LogNorm(a, b) => r.fill_log_normal(a, b, &mut v),
            _ => unreachable!(),
        }
        draws.push(v);
    }
    judge(d, &Sh::new(&[n as u32], 1), &draws)
}

/// draws with parameters that resemble each other take turns on one device
fn turns(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let n = if s.bool() { s.range(1, 12) } else { s.range(20, 200) };
    let (a, b) = (s.range(1, 16) as f32 / 2.0, s.range(1, 16) as f32 / 2.0);
    let k = s.range(2, 5) as usize;
    let only = s.below(4);
    let how = s.below(3);
    let w = s.word() as u64;
    let sets: Vec<Dist> = (0..k)
        .map(|i| {
            let h = mix(w ^ (i as u64) << 20) >> 8;
            let v = if i == 0 { 0 } else { (h >> 8) % 8 };
            match if only < 2 { only as u64 } else { h % 5 } {
                0 | 3 => {
                    let (m, d) = [(a, b), (b, a), (a, 2.0 * b), (a + 0.5, b - 0.5), (-a, b), (2.0 * a, b / 2.0), (a - b, b), (a + 1.0, b)][v as usize];
                    Dist::Norm(m, d.max(0.25))
                }
                1 | 4 => {
                    let (l, u) = [(a, a + b), (-a - b, -a), (a, a + 2.0 * b), (a - b, a + b), (a - b, a), (b, a + b), (2.0 * a, 2.0 * (a + b)), (0.0, b)][v as usize];
                    Dist::Unif(l, u)
                }
                _ => Dist::Bern([a / 16.0, 1.0 - a / 16.0, a / 8.0, b / 16.0, b / 8.0, 0.5, 0.0, 1.0][v as usize]),
            }
        })
        .collect();
    let rounds = (3000 / n).clamp(10, 300);
    ctx.desc(|| format!("{} rounds of {} numbers, any of {:?}, seed {}", rounds, n, sets, w));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let sh = Sh::new(&[n], 1);
    let mut r = DefaultRandomizer::new();
    let mut draws: Vec<Vec<Vec<f32>>> = vec![vec![]; k];
    for i in 0..rounds as usize * k {
        // in turn, or in any order
        let j = if how == 0 { i % k } else { mix(w ^ (i as u64) << 40) as usize % k };
        let v = if how == 2 {
            let mut v = vec![f32::NAN; n as usize];
            match sets[j] {
                Dist::Bern(p) => r.fill_bernoulli(p, &mut v),
                Dist::Unif(a, b) => r.fill_uniform(a, b, &mut v),
                Dist::Norm(a, b) => r.fill_normal(a, b, &mut v),
                _ => unreachable!(),
            }
            v
        } else {
            let x = to_shape(&sh);
            match sets[j] {
                Dist::Bern(p) => dev.random_bernoulli(x, p),
                Dist::Unif(a, b) => dev.random_uniform(x, a, b),
                Dist::Norm(a, b) => dev.random_normal(x, a, b),
                _ => unreachable!(),
            }
            .to_vec()
        };
        draws[j].push(v);
    }
    for (d, v) in sets.iter().zip(&draws) {
        judge(*d, &sh, v).map_err(|e| format!("{:?} in turn with {:?}: {}", d, sets, e))?;
    }
    Ok(())
}

/// hundreds of thousands of draws: fine deviations, coarse numbers
fn bulk(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let d = match s.weighted(&[3, 1, 1]) {
        0 => Dist::Bern(coin(&mut s)),
        1 => {
            let (a, b) = uniform(&mut s);
            Dist::Unif(a, b)
        }
        _ => {
            let (a, b) = normal(&mut s);
            Dist::Norm(a, b)
        }
    };
    let total = if matches!(d, Dist::Bern(_)) { 600_000 } else { 250_000 };
    let n = *s.pick(&[1000u32, 65_536, 4001, 100_003, 65_535, 262_144]);
    let rounds = (total / n).max(1);
    ctx.desc(|| format!("{} tensors of {} numbers with {:?}", rounds, n, d));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let sh = Shape::new(&[n], 1);
    let mut all: Vec<f32> = vec![];
    for _ in 0..rounds {
        let t = match d {
            Dist::Bern(p) => dev.random_bernoulli(sh, p),
            Dist::Unif(a, b) => dev.random_uniform(sh, a, b),
            Dist::Norm(a, b) => dev.random_normal(sh, a, b),
            _ => unreachable!(),
        };
        all.extend(t.to_vec());
    }
    if let Some(x) = all.iter().find(|&&x| !d.inside(x)) {
        return Err(format!("{:?} is outside {:?}", x, d));
    }
    if d.constant().is_some() {
        return Ok(());
    }
    fits(d, &all)?;
    fine(d, &all)?;
    unrelated("neighbours", d, &all, &all[1..])
}

/// different threads do not draw the same numbers
fn threads(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let n = s.range(50, 2000);
    let nt = s.range(2, 4);
    let d = if s.bool() { Dist::Unif(0.0, 1.0) } else { Dist::Norm(0.0, 1.0) };
    ctx.desc(|| format!("{} threads drawing {} of {:?}", nt, n, d));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let dev = &dev;
    let draws: Vec<Vec<f32>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                sc.spawn(move || {
                    let sh = Shape::new(&[n], 1);
                    match d {
                        Dist::Unif(a, b) => dev.random_uniform(sh, a, b).to_vec(),
                        Dist::Norm(a, b) => dev.random_normal(sh, a, b).to_vec(),
                        _ => unreachable!(),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    judge(d, &Sh::new(&[n], 1), &draws)
}

fn main() {
    run_main(Check {
        id: "C25",
        rule: "generated distribution, parameters, shape and number of draws into soiled recycled memory: support and bounds for every element; Kolmogorov-Smirnov (DKW bound) or Bernstein bound for the pooled sample and for single places; no repetition or correlation between neighbours, samples, halves, calls and threads. turns: draws of two to five distributions whose parameters resemble each other (swapped, same sum, one of them equal) in turn or in any order, each judged by its own draws. bulk: 250 000 to 600 000 draws of one distribution, whose number of different values is counted too. Non-trivial: more than one element.",
        assumptions: &["the source is not seeded: each statistical bound is chosen so that chance misses it with probability below 1e-16"],
        subs: vec![
            Sub { name: "tensors", head: 48, steps: (0, 0), step_len: 0, quick: 24_000, thorough: 960_000, run: tensors },
            Sub { name: "initializers", head: 32, steps: (0, 0), step_len: 0, quick: 24_000, thorough: 960_000, run: initializers },
            Sub { name: "filler", head: 12, steps: (0, 0), step_len: 0, quick: 12_000, thorough: 480_000, run: filler },
            Sub { name: "turns", head: 10, steps: (0, 0), step_len: 0, quick: 4_000, thorough: 200_000, run: turns },
            Sub { name: "bulk", head: 8, steps: (0, 0), step_len: 0, quick: 1_200, thorough: 48_000, run: bulk },
            Sub { name: "threads", head: 8, steps: (0, 0), step_len: 0, quick: 2_400, thorough: 96_000, run: threads },
        ],
    })
}
