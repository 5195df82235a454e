use harness::optim::*;
use harness::*;

fn hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    history(case, ctx, HistOpts { features: true })
}

struct World<'d> {
    ps: Vec<Parameter<'d>>,
}

fn world<'d>(dev: &'d Device<'d>, shapes: &[Sh], vals: &[Vec<f32>], grads: &[Vec<f32>], o: &Opt) -> World<'d> {
    let mut ps = vec![];
    for ((sh, v), g) in shapes.iter().zip(vals).zip(grads) {
        let mut p = Parameter::new(mk(dev, sh, v), mk(dev, sh, g));
        o.configure(&mut p, 0);
        ps.push(p);
    }
    World { ps }
}

fn update(w: &mut World, o: &mut Opt) {
    let mut l: Vec<&mut Parameter> = w.ps.iter_mut().collect();
    each_opt!(&mut o.real, r => r.update_parameters(&mut l));
}

/// switched off means as if never there; a clipped gradient has exactly the norm of the threshold
/// and the direction it had
fn relations(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let np = s.range(1, 4) as usize;
    let crowd = s.chance(1, 10);
    let np = if crowd { s.range(5, 70) as usize } else { np };
    let cw = s.word() as u64;
    let shapes: Vec<Sh> =
        (0..np).map(|i| if crowd { Sh::new(&[mix(cw ^ (i as u64) << 7) as u32 % 3 + 1], 1) } else { param_shape(&mut s) }).collect();
    let mut count = 0;
    let mut values = |s: &mut Src, n: usize| {
        if crowd {
            count += 1;
            return Vals { mode: Mode::Signed(0.1, 2.0), seed: mix(cw ^ (count << 30)) as u32, exp: 0 }.fill(n);
        }
        values(s, n)
    };
    let vals: Vec<Vec<f32>> = shapes.iter().map(|sh| values(&mut s, sh.size())).collect();
    let scale = if s.bool() { 1.0 } else { 10f32.powi(s.range(0, 26) as i32 - 14) };
    let grads: Vec<Vec<f32>> = shapes.iter().map(|sh| values(&mut s, sh.size()).into_iter().map(|g| g * scale).collect()).collect();
    let kind = choose_opt(&mut s);
    let n: usize = shapes.iter().map(|s| s.size()).sum();
    let norm = grads.iter().flatten().map(|&g| g as f64 * g as f64).sum::<f64>().sqrt();
    ctx.desc(|| format!("{:?} shapes {:?} gradient norm {:e} {:?}", kind, shapes.iter().map(|s| s.show()).collect::<Vec<_>>(), norm, grads.iter().flatten().take(6).collect::<Vec<_>>()));
    let which = s.below(3);
    match which {
        0 => {
            // off, and a threshold that is not exceeded: no effect whatsoever
            let mut plain = Opt::new(kind.clone());
            let mut off = Opt::new(kind.clone());
            off.set_decay(*s.pick(&[0.5f32, 1.0]));
            off.set_clip(*s.pick(&[0.5f32, 1e-3]));
            off.set_lr(3.0);
            off.set_decay(0.0);
            let thr = norm * (1.01 + s.below(4) as f64);
            off.set_clip(if s.bool() && thr > 1e-30 { thr as f32 } else { 0.0 });
            off.set_lr(1.0);
            ctx.desc(|| format!("features set and switched off again, clipping at {}", off.clip));
            let mut a = world(&dev, &shapes, &vals, &grads, &plain);
            let mut b = world(&dev, &shapes, &vals, &grads, &off);
            for r in 0..3 {
                update(&mut a, &mut plain);
                update(&mut b, &mut off);
                for k in 0..np {
                    same_snapshot(&format!("parameter {} with features switched off", k), &snapshot(&b.ps[k]), &snapshot(&a.ps[k]))?;
                    if r < 2 {
                        dev.reset_tensor_by_slice(&mut a.ps[k].gradient, &grads[k]);
                        dev.reset_tensor_by_slice(&mut b.ps[k].gradient, &grads[k]);
                    }
                }
            }
            ctx.nontrivial();
        }
        1 => {
            // SGD with unit step from zero reveals the gradient that was used
            if !(norm > 1e-14 && norm < 1e15) {
                ctx.skip("no gradient");
                return Ok(());
            }
            let zero: Vec<Vec<f32>> = shapes.iter().map(|s| vec![0.0; s.size()]).collect();
            let mut o = Opt::new(Kind3::Sgd { eta: 1.0 });
            let thr = (norm * s.either(&[0.5, 0.1, 0.9, 0.99, 1e-3], 1e-4, 0.995) as f64) as f32;
            o.set_clip(thr);
            ctx.desc(|| format!("clipping at {}", thr));
            let mut w = world(&dev, &shapes, &zero, &grads, &o);
            update(&mut w, &mut o);
            let used: Vec<f32> = w.ps.iter().flat_map(|p| p.value.to_vec()).map(|x| -x).collect();
            let m = used.iter().map(|&g| g as f64 * g as f64).sum::<f64>().sqrt();
            let tol = UU * (n as f64 + 16.0) * 4.0;
            if (m - thr as f64).abs() > tol * m + 1e-35 * n as f64 {
                return Err(format!("norm after clipping at {:e} is {:e} (was {:e})", thr, m, norm));
            }
            let f = thr as f64 / norm;
            for (i, (&u, g)) in used.iter().zip(grads.iter().flatten()).enumerate() {
                if (u as f64 - f * *g as f64).abs() > tol * f * g.abs() as f64 + 1e-43 {
                    return Err(format!("gradient element {} is {:e} after clipping, expected {:e}", i, u, f * *g as f64));
                }
            }
            ctx.nontrivial();
        }
        _ => {
            // decay is exactly what adding strength * value to the gradient by hand does
            let mut plain = Opt::new(kind.clone());
            let mut dec = Opt::new(kind.clone());
            let k = *s.pick(&[0.5f32, 2.0, 0.25, 1.0]);
            dec.set_decay(k);
            let clip = if s.bool() { (norm * 0.7) as f32 } else { 0.0 };
            plain.set_clip(clip);
            dec.set_clip(clip);
            let l = *s.pick(&[1.0f32, 0.5, 4.0]);
            plain.set_lr(l);
            dec.set_lr(l);
            ctx.desc(|| format!("decay {} clip {} scaling {}", k, clip, l));
            // powers of two times value: exact up to the one rounding of the sum
            let by_hand: Vec<Vec<f32>> =
                grads.iter().zip(&vals).map(|(g, v)| g.iter().zip(v).map(|(g, v)| g + k * v).collect()).collect();
            let mut a = world(&dev, &shapes, &vals, &by_hand, &plain);
            let mut b = world(&dev, &shapes, &vals, &grads, &dec);
            update(&mut a, &mut plain);
            update(&mut b, &mut dec);
            for k in 0..np {
                same_snapshot(&format!("parameter {} with decay", k), &snapshot(&b.ps[k]), &snapshot(&a.ps[k]))?;
            }
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C16",
        rule: "history: as C15 with weight decay, joint gradient clipping and learning-rate scaling changed between updates; non-trivial with two updates, one of them with a feature on. relations: features set and switched off equal never set, a threshold above the norm changes no bit, a clipped gradient has the threshold as joint norm and keeps its direction, decay equals adding strength times value by hand; every case counts.",
        assumptions: &["gradients below 1e15 in magnitude (their squares are representable)"],
        subs: vec![
            Sub { name: "history", head: 80, steps: (2, 30), step_len: 20, quick: 350_000, thorough: 14_000_000, run: hist },
            Sub { name: "relations", head: 60, steps: (0, 0), step_len: 0, quick: 350_000, thorough: 14_000_000, run: relations },
        ],
    })
}
