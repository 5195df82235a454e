use harness::*;

const SMOOTH: Opts = Opts { smooth: true, max_size: 300, ..Opts::DEFAULT };

/// leaves as owned values, references or parameters
fn graph(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let b = prog::build(case, &SMOOTH);
    let p = &b.prog;
    let mut s = Src::new(&case.head[24..]);
    let forms: Vec<u32> = p.leaves.iter().map(|(sh, _)| if sh.batch == 1 { s.below(3) } else { s.below(2) }).collect();
    let npass = s.range(1, 3);
    let roots: Vec<usize> = (0..npass)
        .map(|_| match s.weighted(&[4, 3]) {
            0 => p.len() - 1 - s.index(p.len().min(3)),
            _ => s.index(p.len()),
        })
        .collect();
    let (staged, drops) = (s.below(2), s.bool());
    ctx.desc(|| format!("{} backward from {:?}{}{}", p.show(), roots, if staged == 1 { ", growing in between" } else { "" }, if drops { ", intermediate values dropped" } else { "" }));
    if p.steps.len() >= 2 {
        ctx.nontrivial();
    }
    if p.steps.iter().any(|t| t.n > 1) {
        ctx.label("multi-output");
    }
    if (0..p.len()).any(|v| p.steps.iter().map(|t| t.args.iter().filter(|&&a| a == v).count()).sum::<usize>() > 1) {
        ctx.label("shared value");
    }
    ctx.label(format!("steps {}", p.steps.len() / 4 * 4));
    let dev = D::Naive::new();
    let tensors: Vec<Tensor> = p.leaves.iter().map(|(sh, d)| mk(&dev, sh, d)).collect();
    let mut params: Vec<Parameter> =
        p.leaves.iter().map(|(sh, d)| { let sh = sh.with_batch(1); Parameter::new(mk(&dev, &sh, &d[..sh.size()]), dev.new_tensor_by_constant(to_shape(&sh), 0.0)) }).collect();
    // equal inputs sometimes refer to one tensor
    let one = s.bool();
    let shared = |i: usize| {
        let (sh, d) = &p.leaves[i];
        (0..i).find(|&j| one && p.leaves[j].0 == *sh && bits(&p.leaves[j].1) == bits(d)).unwrap_or(i)
    };
    // expected parameter gradients accumulate over the passes
    let mut acc: Vec<Vec<(f64, f64)>> = p.leaves.iter().map(|(sh, _)| vec![(0.0, 0.0); sh.size()]).collect();
    {
        let mut v: Vec<Option<Node>> = vec![];
        for (i, ((sh, d), q)) in p.leaves.iter().zip(params.iter_mut()).enumerate() {
            v.push(Some(match forms[i] {
                0 => Node::from(mk(&dev, sh, d)),
                1 => Node::from(&tensors[shared(i)]),
                _ => Node::from(q),
            }));
        }
        let mut built = 0;
        let mut last: Vec<Option<Vec<(f64, f64)>>> = vec![None; p.leaves.len()];
        for (pass, &root) in roots.iter().enumerate() {
            // the graph may grow between the passes
            let stop = if pass + 1 == roots.len() || staged == 0 {
                p.steps.len()
            } else {
                p.steps.iter().position(|t| t.first + t.n > root).map(|k| k + 1).unwrap_or(0).max(built)
            };
            for st in &p.steps[built..stop] {
                let r = {
                    let a: Vec<&Node> = st.args.iter().map(|&i| v[i].as_ref().unwrap()).collect();
                    apply_node(&st.op, &a)
                };
                v.extend(r.into_iter().map(Some));
            }
            built = stop;
            if s.chance(1, 4) {
                if let Some(n) = &v[s.index(v.len())] {
                    n.forward();
                }
            }
            if drops {
                // values nobody holds any longer, though others were computed from them
                for k in p.leaves.len()..v.len() {
                    let needed = roots[pass..].contains(&k) || p.steps[built..].iter().any(|t| t.args.contains(&k));
                    if !needed && (k + pass) % 3 != 0 {
                        v[k] = None;
                    }
                }
            }
            v[root].as_ref().unwrap().backward();
            let seeds: Vec<(u32, f32)> = b.rts[root].id.iter().map(|&i| (i, 1.0)).collect();
            let g = b.tape.gradients(&seeds);
            let cone = p.cone(&[root]);
            for i in 0..p.leaves.len() {
                if cone[i] {
                    let want: Vec<(f64, f64)> = b.rts[i].id.iter().map(|&k| (g.g[k as usize], g.e[k as usize])).collect();
                    for (a, w) in acc[i].iter_mut().zip(&want) {
                        a.0 += w.0;
                        a.1 += w.1;
                        if a.1 > 0.0 || a.0.fract() != 0.0 {
                            a.1 += 1.2e-7 * (a.0.abs() + w.0.abs());
                        }
                    }
                    last[i] = Some(want);
                }
                // inputs the root does not depend on keep what they had
                let Some(want) = &last[i] else {
                    if v[i].as_ref().unwrap().inner_gradient().valid() && v[i].as_ref().unwrap().inner_gradient().to_vec().iter().any(|&x| x != 0.0) {
                        return Err(format!("input {} receives a gradient although no root depends on it", i));
                    }
                    continue;
                };
                let got = v[i].as_ref().unwrap().inner_gradient().to_vec();
                for (k, (&x, w)) in got.iter().zip(want).enumerate() {
                    if !close(x, w.0, w.1) {
                        return Err(format!(
                            "after backward from v{}: gradient of input {} at {} is {:?}, expected {:?} (allowed {:.3e})",
                            root, i, k, x, w.0, SLACK * w.1
                        ));
                    }
                }
            }
        }
        // values are what they were
        for (k, n) in v.iter().enumerate() {
            let Some(n) = n else { continue };
            if p.cone(&roots)[k] {
                check_values(&format!("value v{}", k), &n.to_vec(), &b.tape, &b.rts[k])?;
            }
        }
    }
    for i in 0..p.leaves.len() {
        if forms[i] == 2 {
            for (k, (&x, w)) in params[i].gradient.to_vec().iter().zip(&acc[i]).enumerate() {
                if !close(x, w.0, w.1) {
                    return Err(format!("parameter {} gradient at {} is {:?}, expected {:?} (allowed {:.3e})", i, k, x, w.0, SLACK * w.1));
                }
            }
            check_bits("parameter value", &params[i].value.to_vec(), &p.leaves[i].1)?;
        }
        check_bits("input tensor", &tensors[i].to_vec(), &p.leaves[i].1)?;
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C10",
        rule: "random graphs of up to 16 operations of the whole vocabulary over up to 4 inputs (owned, referenced, or parameters), with shared values, several results used partly, unused branches and repeated minibatches; one to three backward passes from arbitrary values; every input's gradient after every pass, the graph possibly growing and intermediate values being dropped in between, and every parameter's accumulated gradient, against reverse-mode f64 adjoints with rounding bounds; non-trivial when the graph has at least two operations",
        assumptions: &["points without a derivative are left out by construction"],
        subs: vec![Sub { name: "graph", head: 48, steps: (1, 16), step_len: 36, quick: 450_000, thorough: 18_000_000, run: graph }],
    })
}
