use harness::*;

fn fwd(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let call = gen::call(&mut s, Kind::Matrix, l, false);
    forward_call(&call, ctx)
}

/// identity kernel, and its algebra with the other operations
fn identity(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let n = gen::extent(&mut s, 80);
    let dev = D::Naive::new();
    let garbage = if s.bool() { f32::NAN } else { 7.0 };
    dirty(&dev, (n * n) as usize, 2, garbage);
    let mut id = dev.new_tensor(Shape::new(&[n, n], 1));
    id.alloc();
    dev.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut id]);
    ctx.desc(|| format!("identity of {}", n));
    if n > 1 {
        ctx.nontrivial();
    }
    let want: Vec<f32> = (0..n * n).map(|i| if i % n == i / n { 1.0 } else { 0.0 }).collect();
    check_exact("identity matrix", &id.to_vec(), &want)?;
    let m = gen::extent(&mut s, 40);
    let b = gen::batch(&mut s, 4);
    let sh = Sh::new(&[m, n], b);
    let d = gen::ints(&mut s).fill(sh.size());
    let x = mk(&dev, &sh, &d);
    ctx.desc(|| format!("times {}", sh.show()));
    check_exact("x times identity", &x.matmul(&id).to_vec(), &d)?;
    check_exact("identity times x transposed", &id.matmul(x.transpose()).transpose().to_vec(), &d)?;
    check_shape("transpose twice", &x.transpose().transpose(), &sh)?;
    check_bits("transpose twice", &x.transpose().transpose().to_vec(), &d)?;
    // lower and upper parts partition a square matrix
    let qsh = Sh::new(&[n, n], b);
    let qd = gen::ints(&mut s).fill(qsh.size());
    let q = mk(&dev, &qsh, &qd);
    let sum = q.triangular_l(0) + q.triangular_u(1);
    check_exact("strict upper plus lower", &sum.to_vec(), &qd)?;
    Ok(())
}

/// zeros, infinities and values that are not numbers follow the arithmetic of the definition
fn special(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let rare = *s.pick(&[2, 8, 40, 300]);
    let (m, k, n) = (gen::extent(&mut s, 20), gen::extent(&mut s, 40), gen::extent(&mut s, 20));
    let ba = gen::batch(&mut s, 3);
    let bb = gen::compat_batch(&mut s, ba, 3);
    let var = s.below(4) as u8;
    let seed = s.word() as u64;
    let fill = |sh: &Sh, salt: u64| -> Vec<f32> {
        (0..sh.size() as u64)
            .map(|i| {
                let h = mix((seed << 20) ^ (salt << 50) ^ i);
                if (h >> 32) % rare == 0 {
                    [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 1e-30][h as usize % 6]
                } else {
                    (h % 7) as f32 - 3.0
                }
            })
            .collect()
    };
    let (sa, sb) = (Sh::new(&[m, k], ba), Sh::new(&[k, n], bb));
    let (a, b) = (fill(&sa, 1), fill(&sb, 2));
    ctx.desc(|| format!("{} times {}, special values one in {}", sa.show(), sb.show(), rare));
    let dev = D::Naive::new();
    let x = mk(&dev, &sa, &a);
    let y = mk(&dev, &sb, &b);
    let got = apply_tensor(&Op::Matmul(var), &[&x, &y]).pop().unwrap().to_vec();
    let bs = ba.max(bb) as usize;
    let (m, k, n) = (m as usize, k as usize, n as usize);
    let mut specials = false;
    for q in 0..bs {
        for j in 0..n {
            for i in 0..m {
                let (mut fin, mut pos, mut neg, mut nan) = (0.0f64, false, false, false);
                for l in 0..k {
                    let u = a[(if ba > 1 { q * m * k } else { 0 }) + i + l * m];
                    let v = b[(if bb > 1 { q * k * n } else { 0 }) + l + j * k];
                    let w = u * v;
                    if w.is_nan() {
                        nan = true
                    } else if w == f32::INFINITY {
                        pos = true
                    } else if w == f32::NEG_INFINITY {
                        neg = true
                    } else {
                        fin += w as f64
                    }
                }
                let g = got[(q * n + j) * m + i];
                let ok = if nan || pos && neg {
                    g.is_nan()
                } else if pos {
                    g == f32::INFINITY
                } else if neg {
                    g == f32::NEG_INFINITY
                } else {
                    (g as f64 - fin).abs() <= 1e-28 + 1e-5 * fin.abs()
                };
                specials |= nan || pos || neg;
                if !ok {
                    return Err(format!("element ({}, {}) of sample {} is {:?}; the terms add up to {} (infinite terms: {} {}, not numbers: {})", i, j, q, g, fin, pos, neg, nan));
                }
            }
        }
    }
    if specials {
        ctx.nontrivial();
    }
    Ok(())
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| fwd(case, ctx))
}

/// calls that resemble each other, one after another
fn in_a_row(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    relatives(case, ctx, &[Kind::Matrix], false)
}

fn main() {
    run_main(Check {
        id: "C04",
        rule: "forward: matrix product (ownership variants, minibatch repetition of either side, extents up to thousands incl. values around 32, 64, 128..), transpose and triangular parts with diagonal offsets up to the largest index, against a textbook index loop (exact for integers, rounding bound otherwise); non-trivial when more than one element is involved. identity: the identity kernel in recycled dirty memory and its laws; non-trivial when the order exceeds one. special: products with zeros, infinities and values that are not numbers among small integers, against the classification of the terms; non-trivial when a result is not finite. row: a call and up to six others that resemble it (extents exchanged, factors moved, operands exchanged, another dimension, neighbouring constants or places), in turn, on one device or several. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &[],
        subs: vec![
            Sub { name: "forward", head: 24, steps: (0, 0), step_len: 0, quick: 600_000, thorough: 24_000_000, run: fwd },
            Sub { name: "row", head: 100, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: in_a_row },
            Sub { name: "identity", head: 20, steps: (0, 0), step_len: 0, quick: 90_000, thorough: 3_600_000, run: identity },
            Sub { name: "special", head: 24, steps: (0, 0), step_len: 0, quick: 60_000, thorough: 2_400_000, run: special },
            Sub { name: "long", head: 30, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
