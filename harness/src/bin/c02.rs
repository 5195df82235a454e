use harness::*;

/// a target and a history of in-place operations on it
fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let sh = gen::shape(&mut s, l);
    let exact = s.chance(1, 2);
    let v = |s: &mut Src| if exact { gen::ints(s) } else { gen::vals(s, Mode::Signed(0.1, 3.0)) };
    let dev = D::Naive::new();
    let x0 = v(&mut s).fill(sh.size());
    let mut x = mk(&dev, &sh, &x0);
    let by0 = Vals { mode: Mode::Iota, seed: 1, exp: 0 }.fill(sh.size());
    let bystander = mk(&dev, &sh, &by0);
    let mut t = Tape::new();
    let mut r = Rt::from_data(&mut t, &sh, &x0);
    ctx.desc(|| format!("target {} values {:?}", sh.show(), &x0[..x0.len().min(4)]));
    for (i, w) in case.steps.iter().enumerate() {
        let mut s = Src::new(w);
        let k = s.weighted(&[4, 4, 2]);
        if k == 2 {
            let c = if exact { *s.pick(&[2.0f32, -1.0, 1.0, 0.0, 3.0]) } else { gen::konst(&mut s) };
            let r2 = Op::MulC(c, 0).eval(&mut t, &[&r]).pop().unwrap();
            if t.bad.is_some() || r2.id.iter().any(|&i| t.val(i).abs() > 1e6) {
                t.bad = None;
                continue;
            }
            ctx.desc(|| format!("*= {:?}", c));
            x *= c;
            r = r2;
        } else {
            let b = gen::compat_batch(&mut s, sh.batch, l.batch);
            let osh = sh.with_batch(b);
            let d = v(&mut s).fill(osh.size());
            let o = Rt::from_data(&mut t, &osh, &d);
            // a minibatch-of-one target takes the sum over the operand's samples
            let eff = if sh.batch == 1 && b > 1 { Op::BatchSum.eval(&mut t, &[&o]).pop().unwrap() } else { o };
            let op = if k == 0 { Op::Add(0) } else { Op::Sub(0) };
            r = op.eval(&mut t, &[&r, &eff]).pop().unwrap();
            if let Some(b) = t.bad {
                ctx.skip(b);
                return Ok(());
            }
            let how = s.below(4);
            ctx.desc(|| format!("{} {} {:?} (form {})", if k == 0 { "+=" } else { "-=" }, osh.show(), &d[..d.len().min(4)], how));
            if b != sh.batch {
                ctx.label(if b == 1 { "operand repeated" } else { "operand reduced" });
            }
            ctx.nontrivial();
            let y = mk(&dev, &osh, &d);
            match (k, how) {
                (0, 0) => x += &y,
                (0, 1) => x += Tensor::from(&y),
                (0, 2) => dev.add_assign(&y, &mut x),
                (0, _) => x += dev.copy_tensor(&y),
                (_, 0) => x -= &y,
                (_, 1) => x -= Tensor::from(&y),
                (_, 2) => dev.sub_assign(&y, &mut x),
                (_, _) => x -= dev.copy_tensor(&y),
            }
            check_bits("operand afterwards", &y.to_vec(), &d)?;
        }
        check_tensor(&format!("target after operation {}", i), &x, &t, &r)?;
        check_bits("unrelated tensor", &bystander.to_vec(), &by0)?;
    }
    Ok(())
}

/// one operation on numbers of any kind: a single sum or product per element, rounded once
fn single(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let sh = gen::shape(&mut s, l);
    let seed = s.word() as u64;
    let k = s.below(3);
    let odd = |w: u64| -> f32 {
        let b = pvcore::src::mix(w) as u32;
        match b >> 3 & 7 {
            0 | 1 => f32::from_bits(pvcore::src::mix(w ^ 1 << 60) as u32),
            2 => *[0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 1e-45].get((b >> 6 & 7) as usize).unwrap(),
            3 => f32::from_bits(1.0f32.to_bits() + (b >> 8 & 3) - 1),
            4 => 1.0 + (b >> 9 & 1023) as f32 / 1024.0,
            _ => (b >> 8 & 0xffff) as f32 / 256.0 - 128.0,
        }
    };
    let x0: Vec<f32> = (0..sh.size()).map(|i| odd(seed ^ (i as u64) << 32)).collect();
    let c = if s.bool() { f32::from_bits(1.0f32.to_bits() - 3 + s.range(0, 6)) } else { odd(seed ^ 77) };
    let b = if sh.batch > 1 && s.bool() { 1 } else { sh.batch };
    let osh = sh.with_batch(b);
    let d: Vec<f32> = (0..osh.size()).map(|i| odd(seed ^ (i as u64) << 32 ^ 5)).collect();
    ctx.desc(|| format!("target {} values {:?} {}", sh.show(), &x0[..x0.len().min(4)], if k == 2 { format!("*= {:?}", c) } else { format!("{} {} {:?}", ["+=", "-="][k as usize], osh.show(), &d[..d.len().min(4)]) }));
    ctx.nontrivial();
    let dev = D::Naive::new();
    let mut x = mk(&dev, &sh, &x0);
    match k {
        0 => x += &mk(&dev, &osh, &d),
        1 => x -= &mk(&dev, &osh, &d),
        _ => x *= c,
    }
    let v = sh.volume();
    for (i, (&g, &a)) in x.to_vec().iter().zip(&x0).enumerate() {
        let o = d[if b == 1 { i % v } else { i }];
        let want = match k {
            0 => a + o,
            1 => a - o,
            _ => a * c,
        };
        if g.to_bits() != want.to_bits() && !(g.is_nan() && want.is_nan()) && !(g == 0.0 && want == 0.0) {
            return Err(format!("element {} was {:?}, is {:?}, expected {:?}", i, a, g, want));
        }
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| history(case, ctx))
}

fn main() {
    run_main(Check {
        id: "C02",
        rule: "a target tensor and a history of up to 8 in-place +=, -= (operand by reference, view, copy or device call; minibatch equal, one, or many onto a target of one) and *= constant; after every operation the target against the reference sum (exactly for integers), the operand and an unrelated tensor bit for bit unchanged; non-trivial when at least one += or -= ran. single: one operation on numbers of any kind (any bit pattern, neighbours of one, infinities, subnormals), equal to the sum or product rounded once; every case counts. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &[],
        subs: vec![
            Sub { name: "history", head: 24, steps: (1, 8), step_len: 8, quick: 156_000, thorough: 6_240_000, run: history },
            Sub { name: "single", head: 24, steps: (0, 0), step_len: 0, quick: 60_000, thorough: 2_400_000, run: single },
            Sub { name: "long", head: 30, steps: (1, 4), step_len: 8, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
