use harness::*;

fn arg(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = Lim::choose(&mut s);
    let mut sh = gen::shape(&mut s, l);
    let d = gen::dim(&mut s, &sh);
    let spot = if l.vol >= 400 && l.vol < Lim::LONG.vol { s.chance(1, 4) } else { false };
    let m = [Mode::Ties(3), Mode::Ties(50), Mode::Distinct, Mode::Signed(0.0, 3.0), Mode::Log(-100, 100), Mode::Const(1.0)][s.weighted(&[4, 3, 3, 3, 2, 1])];
    let mut m = m;
    let v = gen::vals(&mut s, m);
    let mut data = if spot {
        // one number stands out of a long line
        let h = mix(v.seed as u64 + 5);
        let n = match h % 3 {
            0 => 2 + (h >> 8) as u32 % 300,
            1 => (2 << (h >> 8) % 11) - 1 + (h >> 20) as u32 % 3,
            _ => 2 + (h >> 8) as u32 % 3000,
        };
        sh = Sh::new(&(0..8).map(|i| if i == d { n } else { sh.d(i).min(if i < 3 { 2 } else { 1 }) }).collect::<Vec<_>>(), sh.batch.min(2));
        let stride: u32 = (0..d).map(|i| sh.d(i)).product();
        let pos = match (h >> 30) % 4 {
            0 | 1 => n - 1,
            2 => n - 1 - (h >> 34) as u32 % 9 % n,
            _ => (h >> 34) as u32 % n,
        };
        m = Mode::Spot(stride, n, pos, if h >> 60 & 1 == 0 { 7.0 } else { -7.0 }, if h >> 61 & 1 == 0 { 0.0 } else { 1.0 });
        Vals { mode: m, ..v }.fill(sh.size())
    } else {
        v.fill(sh.size())
    };
    // infinities and signed zeros are ordinary numbers here
    let odd = s.word();
    match s.below(6) {
        0 => {
            for (i, x) in data.iter_mut().enumerate() {
                match mix(odd as u64 ^ (i as u64) << 20) % 9 {
                    0 => *x = f32::INFINITY,
                    1 => *x = f32::NEG_INFINITY,
                    2 => *x = -0.0,
                    3 => *x = 0.0,
                    _ => {}
                }
            }
        }
        // every element is one of a few values from the ends of the range
        1 => {
            const P: [f32; 14] = [
                f32::NEG_INFINITY,
                f32::MIN,
                -3.4e38,
                -1.0,
                -f32::MIN_POSITIVE,
                -1e-45,
                -0.0,
                0.0,
                1e-45,
                f32::MIN_POSITIVE,
                1.0,
                1.0000001,
                f32::MAX,
                f32::INFINITY,
            ];
            let k = 1 + mix(odd as u64) as usize % 4;
            let few: Vec<f32> = (0..k).map(|j| P[mix(odd as u64 + 77 + j as u64) as usize % P.len()]).collect();
            for (i, x) in data.iter_mut().enumerate() {
                *x = few[mix(odd as u64 ^ (i as u64) << 20) as usize % k];
            }
        }
        _ => {}
    }
    let dev = D::Naive::new();
    let x = mk(&dev, &sh, &data);
    let n = sh.d(d) as usize;
    ctx.desc(|| format!("along {} of {} {:?} {:?}", d, sh.show(), m, &data[..data.len().min(8)]));
    if n > 1 {
        ctx.nontrivial();
    }
    ctx.label(format!("{:?}", m).split('(').next().unwrap());
    let lines = sh.with_dim(d, 1);
    let (shared, later, first) = (s.bool(), s.bool(), s.bool());
    let (amax, amin, asort) = if s.bool() {
        (x.argmax(d), x.argmin(d), x.argsort(d))
    } else {
        // asking evaluates, whichever is asked first
        let nodes: Vec<Node> = (0..3)
            .map(|_| {
                let v: Node = Node::from(&x);
                if later {
                    v.reshape(x.shape())
                } else {
                    v
                }
            })
            .collect();
        let pick = |i: usize| &nodes[if shared { 0 } else { i }];
        if first {
            let m = pick(1).argmin(d);
            let a = pick(2).argsort(d);
            (pick(0).argmax(d), m, a)
        } else {
            (pick(0).argmax(d), pick(1).argmin(d), pick(2).argsort(d))
        }
    };
    if amax.len() != lines.size() || amin.len() != lines.size() || asort.len() != sh.size() {
        return Err(format!("lengths {} {} {}, expected {} {} {}", amax.len(), amin.len(), asort.len(), lines.size(), lines.size(), sh.size()));
    }
    let mut k = 0;
    for b in 0..sh.batch as usize {
        for p in 0..lines.volume() {
            let ix = lines.unflat(p);
            let pos: Vec<usize> = (0..n)
                .map(|i| {
                    let mut j = ix;
                    j[d as usize] = i;
                    b * sh.volume() + sh.flat(&j)
                })
                .collect();
            let (mut hi, mut lo) = (0, 0);
            for i in 1..n {
                if data[pos[i]] > data[pos[hi]] {
                    hi = i;
                }
                if data[pos[i]] < data[pos[lo]] {
                    lo = i;
                }
            }
            if amax[k] as usize != hi || amin[k] as usize != lo {
                return Err(format!("line {} of sample {}: argmax {} argmin {}, expected {} {}", p, b, amax[k], amin[k], hi, lo));
            }
            let mut seen: Vec<usize> = pos.iter().map(|&q| asort[q] as usize).collect();
            for w in seen.windows(2) {
                let ok = match (data.get(w[0]), data.get(w[1])) {
                    (Some(a), Some(b)) => a <= b,
                    _ => false,
                };
                if !ok {
                    return Err(format!("argsort of line {} of sample {}: {:?} is not in ascending order", p, b, &seen[..seen.len().min(12)]));
                }
            }
            let ascending = {
                seen.sort();
                let mut q = pos.clone();
                q.sort();
                q == seen
            };
            if !ascending {
                return Err(format!("argsort of line {} of sample {} is not a permutation of the line", p, b));
            }
            k += 1;
        }
    }
    check_bits("operand afterwards", &x.to_vec(), &data)
}

/// the same with an extent past 16 bits
fn long(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    gen::long(|| arg(case, ctx))
}

fn main() {
    run_main(Check {
        id: "C06",
        rule: "argmax, argmin and argsort of a tensor or graph value on generated shapes, dimension (also past the depth), minibatches and values with many ties, constants, infinities and signed zeros, against a line by line search; non-trivial when the line has more than one element. long: the same with an extent or a minibatch past 16 bits.",
        assumptions: &["no NaN among the values", "argsort may order equal values in any way"],
        subs: vec![
            Sub { name: "arg", head: 28, steps: (0, 0), step_len: 0, quick: 600_000, thorough: 24_000_000, run: arg },
            Sub { name: "long", head: 34, steps: (0, 0), step_len: 0, quick: 96, thorough: 4_000, run: long },
        ],
    })
}
