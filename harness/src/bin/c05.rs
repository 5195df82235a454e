use harness::*;

/// any bit pattern: moving must not look at the value
fn pattern(seed: u32, n: usize) -> Vec<f32> {
    (0..n).map(|i| f32::from_bits((mix(((seed as u64) << 32) ^ i as u64) >> 13) as u32)).collect()
}

fn fwd(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let kind = if s.weighted(&[5, 4]) == 0 { Kind::Move } else { Kind::Batch };
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, kind, l, false);
    if call.op == Op::BatchSum {
        return forward_call(&call, ctx);
    }
    let raw = s.chance(1, 2);
    ctx.desc(|| format!("{}{}", call.show(), if raw { " (random bit patterns)" } else { "" }));
    ctx.label(call.op.name());
    if call.total() > 1 {
        ctx.nontrivial();
    }
    let data: Vec<Vec<f32>> = if raw {
        call.args.iter().map(|(sh, v)| pattern(v.seed, sh.size())).collect()
    } else {
        call.data()
    };
    // positions are carried in 32-bit floats
    if data.iter().map(|d| d.len()).sum::<usize>() > 1 << 24 {
        return Ok(());
    }
    // the reference moves positions; the bits at those positions are expected
    let mut t = Tape::new();
    let mut pos = 0u32;
    let mut flat = vec![];
    let rts: Vec<Rt> = call
        .args
        .iter()
        .zip(&data)
        .map(|((sh, _), d)| {
            let idx: Vec<f32> = (0..d.len()).map(|i| (pos + i as u32) as f32).collect();
            pos += d.len() as u32;
            flat.extend_from_slice(d);
            Rt::from_data(&mut t, sh, &idx)
        })
        .collect();
    let want = call.op.eval(&mut t, &rts.iter().collect::<Vec<_>>());
    let dev = D::Naive::new();
    let xs: Vec<Tensor> = call.args.iter().zip(&data).map(|((sh, _), d)| mk(&dev, sh, d)).collect();
    let ys = apply_tensor(&call.op, &xs.iter().collect::<Vec<_>>());
    if ys.len() != want.len() {
        return Err(format!("{} results, expected {}", ys.len(), want.len()));
    }
    for (i, (y, w)) in ys.iter().zip(&want).enumerate() {
        check_shape("result", y, &w.sh)?;
        let e: Vec<f32> = w.id.iter().map(|&j| flat[t.val(j) as usize]).collect();
        check_bits(&format!("result {}", i), &y.to_vec(), &e)?;
    }
    for (x, d) in xs.iter().zip(&data) {
        check_bits("operand afterwards", &x.to_vec(), d)?;
    }
    Ok(())
}

/// kernels without a method of their own: flip and permutation of dimensions, both directions
fn kernels(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let sh = gen::shape(&mut s, l);
    let dev = D::Naive::new();
    let d = pattern(s.word(), sh.size());
    let x = mk(&dev, &sh, &d);
    let vol = sh.volume();
    let bw = s.bool();
    let gd = Vals { mode: Mode::Ints(9), seed: s.word(), exp: 0 };
    if s.bool() {
        let dim = gen::dim(&mut s, &sh);
        ctx.desc(|| format!("flip along {} of {} backward {}", dim, sh.show(), bw));
        ctx.label("flip");
        if sh.d(dim) > 1 {
            ctx.nontrivial();
        }
        let src = |i: usize| -> usize {
            let mut ix = sh.unflat(i % vol);
            ix[dim as usize] = sh.d(dim) as usize - 1 - ix[dim as usize];
            i / vol * vol + sh.flat(&ix)
        };
        if bw {
            let gy = gd.fill(sh.size());
            let prior: Vec<f32> = (0..sh.size()).map(|i| i as f32 % 7.0).collect();
            let mut gx = mk(&dev, &sh, &prior);
            let gyt = mk(&dev, &sh, &gy);
            dev.call_bw_impl("flip_bw_impl", &[], &[], &[&gyt], &[dim], &[], &mut gx);
            let e: Vec<f32> = (0..sh.size()).map(|i| prior[i] + gy[src(i)]).collect();
            return check_exact("gradient through flip", &gx.to_vec(), &e);
        }
        let mut y = dev.new_tensor(x.shape());
        y.alloc();
        dev.call_fw_impl("flip_fw_impl", &[&x], &[dim], &[], &mut [&mut y]);
        let e: Vec<f32> = (0..sh.size()).map(|i| d[src(i)]).collect();
        check_bits("flipped", &y.to_vec(), &e)?;
        let mut z = dev.new_tensor(x.shape());
        z.alloc();
        dev.call_fw_impl("flip_fw_impl", &[&y], &[dim], &[], &mut [&mut z]);
        check_bits("flipped twice", &z.to_vec(), &d)
    } else {
        let n = s.range(sh.depth(), 8.min(sh.depth() + 1)) as usize;
        let mut perm: Vec<u32> = (0..n as u32).collect();
        for i in (1..n).rev() {
            perm.swap(i, s.index(i + 1));
        }
        let yd: Vec<u32> = perm.iter().map(|&p| sh.d(p)).collect();
        let ysh = Sh::new(&yd, sh.batch);
        ctx.desc(|| format!("permute {} by {:?} backward {}", sh.show(), perm, bw));
        ctx.label("permute");
        if perm.iter().enumerate().any(|(i, &p)| i as u32 != p) {
            ctx.nontrivial();
        }
        let src = |i: usize| -> usize {
            let ix = ysh.unflat(i % vol);
            let mut jx = [0usize; 8];
            for (k, &p) in perm.iter().enumerate() {
                jx[p as usize] = ix[k];
            }
            i / vol * vol + sh.flat(&jx)
        };
        if bw {
            let gy = gd.fill(sh.size());
            let prior: Vec<f32> = (0..sh.size()).map(|i| i as f32 % 7.0).collect();
            let mut gx = mk(&dev, &sh, &prior);
            let gyt = mk(&dev, &ysh, &gy);
            dev.call_bw_impl("permute_dims_bw_impl", &[], &[], &[&gyt], &perm, &[], &mut gx);
            let mut e = prior;
            for i in 0..sh.size() {
                e[src(i)] += gy[i];
            }
            return check_exact("gradient through permutation", &gx.to_vec(), &e);
        }
        let mut y = dev.new_tensor(to_shape(&ysh));
        y.alloc();
        dev.call_fw_impl("permute_dims_fw_impl", &[&x], &perm, &[], &mut [&mut y]);
        let e: Vec<f32> = (0..sh.size()).map(|i| d[src(i)]).collect();
        check_bits("permuted", &y.to_vec(), &e)?;
        let mut inv = vec![0u32; n];
        for (i, &p) in perm.iter().enumerate() {
            inv[p as usize] = i as u32;
        }
        let mut z = dev.new_tensor(x.shape());
        z.alloc();
        dev.call_fw_impl("permute_dims_fw_impl", &[&y], &inv, &[], &mut [&mut z]);
        check_bits("permuted back", &z.to_vec(), &d)
    }
}

/// permutations and flips of shapes with the same number of elements, in turn
fn kernel_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let mut dims: Vec<u32> = (0..3).map(|_| *s.pick(&[1u32, 2, 2, 3, 4, 6])).collect();
    let b = s.range(1, 2);
    let n = s.range(2, 8);
    let w = s.word() as u64;
    let one = s.bool();
    let kept = D::Naive::new();
    ctx.nontrivial();
    let mut perm = vec![0u32, 1, 2];
    let mut dim = 0;
    for i in 0..n as u64 {
        let h = mix(w ^ i << 30);
        match h % 4 {
            0 => dims.swap((h >> 8) as usize % 3, (h >> 16) as usize % 3),
            1 => {
                let (p, q) = ((h >> 8) as usize % 3, (h >> 16) as usize % 3);
                let f = (2..=dims[p]).find(|f| dims[p] % f == 0).unwrap_or(1);
                dims[p] /= f;
                dims[q] *= f;
            }
            2 => perm.swap((h >> 8) as usize % 3, (h >> 16) as usize % 3),
            _ => {
                perm.rotate_left(1);
                dim = (h >> 8) as u32 % 3
            }
        }
        let other = D::Naive::new();
        let dev = if one { &kept } else { &other };
        // SAFETY: nothing made here outlives this turn
        let dev: &Device = unsafe { &*(dev as *const Device) };
        let sh = Sh::new(&dims, b);
        let vol = sh.volume();
        let d = pattern(w as u32 ^ i as u32, sh.size());
        let x = mk(dev, &sh, &d);
        ctx.desc(|| format!("{} by {:?} flipped along {}", sh.show(), perm, dim));
        let ysh = Sh::new(&perm.iter().map(|&p| sh.d(p)).collect::<Vec<_>>(), b);
        let mut y = dev.new_tensor(to_shape(&ysh));
        y.alloc();
        dev.call_fw_impl("permute_dims_fw_impl", &[&x], &perm, &[], &mut [&mut y]);
        let e: Vec<f32> = (0..sh.size())
            .map(|i| {
                let ix = ysh.unflat(i % vol);
                let mut jx = [0usize; 8];
                for (k, &p) in perm.iter().enumerate() {
                    jx[p as usize] = ix[k];
                }
                d[i / vol * vol + sh.flat(&jx)]
            })
            .collect();
        check_bits(&format!("permuted, call {} of a row", i), &y.to_vec(), &e)?;
        let mut back = mk(dev, &sh, &vec![0.0; sh.size()]);
        let g = Vals { mode: Mode::Ints(9), seed: h as u32, exp: 0 }.fill(sh.size());
        let gy = mk(dev, &ysh, &g);
        dev.call_bw_impl("permute_dims_bw_impl", &[], &[], &[&gy], &perm, &[], &mut back);
        let mut eb = vec![0.0; sh.size()];
        for i in 0..sh.size() {
            let ix = ysh.unflat(i % vol);
            let mut jx = [0usize; 8];
            for (k, &p) in perm.iter().enumerate() {
                jx[p as usize] = ix[k];
            }
            eb[i / vol * vol + sh.flat(&jx)] += g[i];
        }
        check_exact(&format!("gradient through a permutation, call {} of a row", i), &back.to_vec(), &eb)?;
        let mut f = dev.new_tensor(to_shape(&sh));
        f.alloc();
        dev.call_fw_impl("flip_fw_impl", &[&x], &[dim], &[], &mut [&mut f]);
        let e: Vec<f32> = (0..sh.size())
            .map(|i| {
                let mut ix = sh.unflat(i % vol);
                ix[dim as usize] = sh.d(dim) as usize - 1 - ix[dim as usize];
                d[i / vol * vol + sh.flat(&ix)]
            })
            .collect();
        check_bits(&format!("flipped, call {} of a row", i), &f.to_vec(), &e)?;
    }
    Ok(())
}

/// split and concat back, batch_split and batch_concat back, slices and concat
fn roundtrip(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let mut sh = gen::shape(&mut s, l);
    let d = gen::dim(&mut s, &sh);
    let n = s.range(1, 4);
    let batch = s.bool();
    if batch {
        sh = sh.with_batch(n * s.range(1, 3));
    } else {
        let m = n * s.range(1, 4);
        let t = sh.with_dim(d, m);
        sh = if t.volume() > 20_000 { Sh::new(&[], sh.batch).with_dim(d, m) } else { t };
    }
    let data = pattern(s.word(), sh.size());
    let dev = D::Naive::new();
    let x = mk(&dev, &sh, &data);
    ctx.desc(|| format!("{} in {} parts {}", sh.show(), n, if batch { "over the minibatch".to_string() } else { format!("along {}", d) }));
    if n > 1 {
        ctx.nontrivial();
    }
    let way = s.bool();
    let parts: Vec<Tensor> = if way {
        if batch {
            x.batch_split(n)
        } else {
            x.split(d, n)
        }
    } else if batch {
        let st = sh.batch / n;
        (0..n).map(|i| x.batch_slice(i * st, (i + 1) * st)).collect()
    } else {
        let st = sh.d(d) / n;
        (0..n).map(|i| x.slice(d, i * st, (i + 1) * st)).collect()
    };
    let pr: Vec<&Tensor> = parts.iter().collect();
    let y = if batch { Tensor::batch_concat(&pr) } else { Tensor::concat(&pr, d) };
    check_shape("joined", &y, &sh)?;
    check_bits("joined", &y.to_vec(), &data)
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| fwd(case, ctx))
}

/// the same with an extent past 16 bits
fn long_roundtrip(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| roundtrip(case, ctx))
}

/// the same with an extent past 16 bits
fn long_kernels(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| kernels(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Move, Kind::Batch], false)
}

fn main() {
    run_main(Check {
        id: "C05",
        rule: "forward: one movement or minibatch call on generated shapes, positions computed by a per-index reference, contents either random bit patterns (NaN included) or labelled values, compared bit for bit; kernels: flip and dimension permutation called through the device in both directions, with the inverse restoring the input; roundtrip: splitting or slicing and joining back. Non-trivial when more than one element (or part) is involved. kernel-row: permutations and flips of arrangements of the same number of elements in turn. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &[],
        subs: vec![
            Sub { name: "forward", head: 48, steps: (0, 0), step_len: 0, quick: 500_000, thorough: 20_000_000, run: fwd },
            Sub { name: "kernel-row", head: 10, steps: (0, 0), step_len: 0, quick: 30_000, thorough: 1_200_000, run: kernel_row },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "kernels", head: 32, steps: (0, 0), step_len: 0, quick: 200_000, thorough: 8_000_000, run: kernels },
            Sub { name: "roundtrip", head: 24, steps: (0, 0), step_len: 0, quick: 120_000, thorough: 4_800_000, run: roundtrip },
            Sub { name: "long", head: 54, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
            Sub { name: "long_roundtrip", head: 30, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long_roundtrip },
            Sub { name: "long_kernels", head: 38, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long_kernels },
        ],
    })
}
