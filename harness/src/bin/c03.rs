use harness::*;

fn fwd(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = if s.weighted(&[5, 4]) == 0 { Kind::Reduce } else { Kind::Softmax };
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, false);
    forward_call(&call, ctx)
}

/// large magnitudes and one dominating element: no overflow, no loss
fn extreme(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = gen::shape(&mut s, Lim { depth: 4, vol: 200, batch: 4 });
    let d = gen::dim(&mut s, &sh);
    let mode = s.weighted(&[3, 3, 2, 2]);
    let scale = *s.pick(&[1e3f32, 1e5, 1e20, 3e38]);
    let seed = s.word();
    let data: Vec<f32> = (0..sh.size())
        .map(|i| {
            let h = mix(((seed as u64) << 32) ^ i as u64);
            let u = ((h >> 20) % 2001) as f32 / 1000.0 - 1.0;
            match mode {
                0 => u * scale,
                1 => scale.min(1e30) + (h % 3) as f32,
                2 => -scale.min(1e30) + (h % 3) as f32,
                _ => {
                    if h % 5 == 0 {
                        u * scale
                    } else {
                        u
                    }
                }
            }
        })
        .collect();
    let which = s.below(8);
    let dev = D::Naive::new();
    let x = mk(&dev, &sh, &data);
    ctx.desc(|| format!("op {} along {} of {} scale {:?} mode {} values {:?}", which, d, sh.show(), scale, mode, &data[..data.len().min(5)]));
    ctx.label(format!("op{}", which));
    ctx.nontrivial();
    let n = sh.d(d) as usize;
    let line = |ix: &[usize; 8], b: usize| -> Vec<f64> {
        let mut j = *ix;
        (0..n)
            .map(|i| {
                j[d as usize] = i;
                data[b * sh.volume() + sh.flat(&j)] as f64
            })
            .collect()
    };
    let lse = |l: &[f64]| -> f64 {
        let m = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        m + l.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
    };
    let max = f32::MAX as f64;
    let eps = 1e-6;
    let out_sh = if which >= 3 && which <= 4 || which == 7 { sh.clone() } else { sh.with_dim(d, 1) };
    let ids: Vec<u32> = vec![s.below(sh.d(d))];
    let y = match which {
        0 => x.logsumexp(d),
        1 => x.max(d),
        2 => x.min(d),
        3 | 7 => x.ln_softmax(d),
        4 => x.softmax(d),
        5 => x.sparse_softmax_cross_entropy(&ids, d),
        _ => x.sum(d),
    };
    check_shape("result", &y, &out_sh)?;
    let got = y.to_vec();
    for b in 0..sh.batch as usize {
        for p in 0..out_sh.volume() {
            let ix = out_sh.unflat(p);
            let l = line(&ix, b);
            let me = l[if out_sh == sh { ix[d as usize] } else { 0 }];
            let big = l.iter().map(|x| x.abs()).fold(0.0, f64::max);
            let (v, tol) = match which {
                0 => (lse(&l), eps * (big + 1.0)),
                1 => (l.iter().cloned().fold(f64::NEG_INFINITY, f64::max), 0.0),
                2 => (l.iter().cloned().fold(f64::INFINITY, f64::min), 0.0),
                3 | 7 => (me - lse(&l), eps * (big + 1.0)),
                // the logarithm is off by the rounding of large inputs, the result at most by that factor
                4 => {
                    let v = (me - lse(&l)).exp();
                    (v, (v * (eps * (big + 1.0)).min(20.0).exp_m1()).min(1.0) + 1e-6)
                }
                5 => (lse(&l) - l[ids[0] as usize], eps * (big + 1.0)),
                _ => (l.iter().sum(), l.iter().map(|x| x.abs()).sum::<f64>() * 1e-7 * (n as f64 + 2.0)),
            };
            let g = got[b * out_sh.volume() + p] as f64;
            // partial sums may leave the range in some orders of summation
            if which == 6 && l.iter().map(|x| x.abs()).sum::<f64>() > max * 0.99 {
                continue;
            }
            if v.abs() > max * 0.999 {
                continue;
            }
            if !((g - v).abs() <= tol) {
                return Err(format!("op {}: element {} of sample {} is {:?}, expected {:?} (allowed {:.3e}); line {:?}", which, p, b, g, v, tol, &l[..l.len().min(8)]));
            }
        }
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| fwd(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Reduce, Kind::Softmax], false)
}

fn main() {
    run_main(Check {
        id: "C03",
        rule: "forward: one reduction or softmax-family call on generated shapes, dimension (also past the depth), minibatches, values and ids, every element against the f64 definition with a running rounding bound; non-trivial when more than one element is involved. extreme: lines of huge, tiny-difference and dominating values up to the largest finite number against the f64 definition; every case counts. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &["infinite inputs are not generated", "results whose exact value does not fit the number format are not compared"],
        subs: vec![
            Sub { name: "forward", head: 40, steps: (0, 0), step_len: 0, quick: 325_000, thorough: 13_000_000, run: fwd },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "extreme", head: 24, steps: (0, 0), step_len: 0, quick: 260_000, thorough: 10_400_000, run: extreme },
            Sub { name: "long", head: 46, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
