use harness::stat::*;
use harness::*;

/// values whose quotients are all different from zero
fn input(s: &mut Src, n: usize) -> Vec<f32> {
    let m = *s.pick(&[Mode::Signed(0.5, 2.0), Mode::Iota, Mode::Const(1.0), Mode::Log(-20, 20), Mode::Const(-3.0)]);
    let seed = s.word();
    Vals { mode: m, seed, exp: 0 }.fill(n)
}

fn near(got: f32, want: f64) -> bool {
    (got as f64 - want).abs() <= 4e-7 * want.abs()
}

struct Made {
    y: Vec<f32>,
    g: Option<Vec<f32>>,
}

#[derive(Clone, Copy, Debug)]
struct How {
    dim: Option<u32>,
    rate: f32,
    on: bool,
}

fn eager(dev: &Device, sh: &Sh, x: &[f32], h: How) -> Result<Made, String> {
    let t = mk(dev, sh, x);
    let y = match h.dim {
        None => t.dropout(h.rate, h.on),
        Some(d) => t.dropout_dim(d, h.rate, h.on),
    };
    if from_shape(y.shape()) != *sh {
        return Err(format!("shape {:?}, expected {}", y.shape(), sh.show()));
    }
    check_bits("operand after dropout", &t.to_vec(), x)?;
    Ok(Made { y: y.to_vec(), g: None })
}

fn lazy(dev: &Device, sh: &Sh, x: &[f32], h: How, c: &[f32], prior: &[f32]) -> Result<Made, String> {
    // SAFETY: all nodes end with this function
    let dev: &'static Device<'static> = unsafe { &*(dev as *const Device as *const Device<'static>) };
    let t = Node::from(mk(dev, sh, x));
    let y = match h.dim {
        None => t.dropout(h.rate, h.on),
        Some(d) => t.dropout_dim(d, h.rate, h.on),
    };
    if from_shape(y.shape()) != *sh {
        return Err(format!("shape {:?}, expected {}", y.shape(), sh.show()));
    }
    let v = y.to_vec();
    check_bits("the value evaluated again", &y.to_vec(), &v)?;
    {
        let root = Node::create(Seed { device: dev, cots: vec![c.to_vec(), prior.to_vec()] }, &[&y, &t]).pop().unwrap();
        root.backward();
    }
    check_bits("the value after the backward pass", &y.to_vec(), &v)?;
    let g = t.inner_gradient().to_vec();
    Ok(Made { y: v, g: Some(g) })
}

fn run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = [Lim::SMALL, Lim::MID, Lim::BIG][s.weighted(&[5, 3, 1])];
    let sh = gen::shape(&mut s, l);
    let dim = if s.bool() { Some(gen::dim(&mut s, &sh)) } else { None };
    let rate = match s.weighted(&[6, 2]) {
        0 => *s.pick(&[0.5f32, 0.0, 1.0, 0.1, 0.9, 0.25, 0.99, 0.3, 0.01, 1.5, 1e-3, 100.0]),
        _ => (mix(s.word() as u64) >> 40) as f32 / (1u64 << 24) as f32,
    };
    let on = s.chance(5, 6);
    let h = How { dim, rate, on };
    let n = sh.size();
    let units = match dim {
        None => n,
        Some(d) => n / sh.d(d) as usize,
    };
    let rounds = (2000 / n).clamp(2, 120);
    body(&mut s, ctx, sh, h, units, rounds)
}

/// rates next to zero and one, enough choices to see them
fn rare(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let p = *s.pick(&[1e-3f32, 2e-3, 4e-3, 7e-4, 1.3e-3]) * (1.0 + (s.below(1000) as f32) / 1e3);
    let rate = if s.chance(2, 3) { 1.0 - p } else { p };
    // the choices are made along every dimension but one
    let (a, b, c) = (s.range(1, 40), s.range(1, 40), s.range(1, 4));
    let bb = s.range(1, 4);
    let k = a * b * c * bb;
    let rest = (30_000 / k).max(1);
    let mut d = vec![a, rest, b, c];
    let dim = if s.bool() {
        let at = s.below(4);
        d.insert(at as usize, s.range(1, 2));
        Some(at)
    } else {
        None
    };
    let sh = Sh::new(&d, bb);
    let h = How { dim, rate, on: true };
    let units = match dim {
        None => sh.size(),
        Some(d) => sh.size() / sh.d(d) as usize,
    };
    // expect at least 180 of the rare outcome
    let rounds = 2 * (180.0 / p as f64 / units as f64).ceil().max(2.0) as usize;
    body(&mut s, ctx, sh, h, units, rounds)
}

fn body(s: &mut Src, ctx: &mut Ctx, sh: Sh, h: How, units: usize, rounds: usize) -> Result<(), String> {
    let How { dim, rate, on } = h;
    let n = sh.size();
    ctx.desc(|| format!("{:?} on {}, {} rounds", h, sh.show(), rounds));
    ctx.label(if !on { "disabled" } else if rate >= 1.0 { "rate one" } else { "dropping" });
    if on && rate < 1.0 && units > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    dirty(&dev, n.max(64), 3, f32::NAN);
    let mut x = input(s, n);
    if !on || rate >= 1.0 {
        // no mask is read off these, so zeros and the ends of the range may occur
        let seed = s.word();
        for (i, v) in x.iter_mut().enumerate() {
            match (seed as usize ^ i.wrapping_mul(0x9E37)) % 7 {
                0 => *v = 0.0,
                1 => *v = -0.0,
                2 => *v = f32::MIN_POSITIVE,
                3 => *v = -1e30,
                _ => {}
            }
        }
    }
    let keep = 1.0 - rate as f64;
    let scale = 1.0 / (1.0f32 - rate) as f64;
    let mut masks: Vec<Vec<f32>> = vec![];
    for r in 0..rounds {
        let is_lazy = r % 2 == 1;
        let c = cotangent(s, n);
        let prior = if s.bool() { vec![0.0; n] } else { Vals { mode: Mode::Ints(9), seed: r as u32, exp: 0 }.fill(n) };
        let m = if is_lazy { lazy(&dev, &sh, &x, h, &c, &prior)? } else { eager(&dev, &sh, &x, h)? };
        let mut mask = vec![0.0f32; n];
        for i in 0..n {
            let kept = if !on {
                if m.y[i].to_bits() != x[i].to_bits() {
                    return Err(format!("dropout is disabled, but element {} became {} from {}", i, m.y[i], x[i]));
                }
                true
            } else if rate >= 1.0 {
                if m.y[i] != 0.0 {
                    return Err(format!("rate {}: element {} is {}", rate, i, m.y[i]));
                }
                false
            } else if m.y[i] == 0.0 {
                false
            } else if near(m.y[i], x[i] as f64 * scale) {
                true
            } else {
                return Err(format!("element {} is {}, neither zero nor {} / {}", i, m.y[i], x[i], keep));
            };
            mask[i] = if kept { 1.0 } else { 0.0 };
            if let Some(g) = &m.g {
                let f = if !kept {
                    0.0
                } else if on {
                    scale
                } else {
                    1.0
                };
                let add = c[i] as f64 * f;
                let want = prior[i] as f64 + add;
                if (g[i] as f64 - want).abs() > 5e-7 * (add.abs() + prior[i].abs() as f64) {
                    return Err(format!("gradient of element {} ({}) is {}, expected {}", i, if kept { "kept" } else { "dropped" }, g[i], want));
                }
            }
        }
        masks.push(mask);
    }
    if !on || rate >= 1.0 {
        return Ok(());
    }
    // whole slices share their fate
    let mut coins: Vec<Vec<f32>> = masks.clone();
    if let Some(d) = dim {
        let low: usize = (0..d.min(8)).map(|i| sh.d(i) as usize).product();
        let k = sh.d(d) as usize;
        for (m, u) in masks.iter().zip(coins.iter_mut()) {
            u.clear();
            for i in 0..n {
                let first = i - (i / low % k) * low;
                if m[i] != m[first] {
                    return Err(format!("elements {} and {} of one slice along {} are treated differently", first, i, d));
                }
                if i == first {
                    u.push(m[i]);
                }
            }
        }
    }
    let us = match dim {
        None => sh.clone(),
        Some(d) => sh.with_dim(d.min(7), 1),
    };
    // eager and lazy ones apart, and all together
    let d = Dist::Bern(1.0 - rate);
    for (p, how) in ["tensors", "graphs"].iter().enumerate() {
        let v: Vec<Vec<f32>> = coins.iter().skip(p).step_by(2).cloned().collect();
        judge(d, &us, &v).map_err(|e| format!("kept elements, {}: {}", how, e))?;
    }
    judge(d, &us, &coins).map_err(|e| format!("kept elements: {}", e))
}

fn main() {
    run_main(Check {
        id: "C26",
        rule: "generated shape, rate, dimension and switch; several rounds on tensors and graphs alternately: every element is zero or x / keep within rounding, slices share their fate, gradients follow the same choice on top of earlier content, repeated evaluation does not draw again; the pooled choices have the stated rate and are unrelated (Bernstein and Hoeffding bounds). Non-trivial: enabled, rate below one, two independent choices.",
        assumptions: &["each statistical bound is missed by chance with probability below 1e-16", "rates below zero are not claimed"],
        subs: vec![Sub { name: "dropout", head: 500, steps: (0, 0), step_len: 0, quick: 96_000, thorough: 3_840_000, run }, Sub { name: "rare", head: 500, steps: (0, 0), step_len: 0, quick: 320, thorough: 16_000, run: rare }],
    })
}
