use harness::*;

const O: Opts = Opts { smooth: true, no_batch_leaves: true, max_size: 120, contrib: true, ..Opts::DEFAULT };

struct Acc {
    v: Vec<(f64, f64)>,
}

fn update_with<O: pu::Optimizer>(mut o: O, p: &mut Parameter, clip: bool) {
    o.configure_parameter(p);
    if clip {
        o.set_gradient_clipping(1.0);
    }
    o.update_parameters(&mut [p]);
}

/// a history of passes, resets and updates over a fixed set of parameters
fn history(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let dev = D::Naive::new();
    let b0 = prog::build(&Case { head: case.head.clone(), steps: vec![] }, &O);
    let np = b0.prog.leaves.len();
    let shapes: Vec<Sh> = b0.prog.leaves.iter().map(|l| l.0.clone()).collect();
    let vals: Vec<Vec<f32>> = b0.prog.leaves.iter().map(|l| l.1.clone()).collect();
    let mut params: Vec<Parameter> = (0..np)
        .map(|i| Parameter::new(mk(&dev, &shapes[i], &vals[i]), dev.new_tensor_by_constant(to_shape(&shapes[i]), 0.0)))
        .collect();
    let mut acc: Vec<Acc> = shapes.iter().map(|s| Acc { v: vec![(0.0, 0.0); s.size()] }).collect();
    ctx.desc(|| b0.prog.show());
    let mut passes = 0;
    let mut i = 0;
    while i < case.steps.len() {
        let w = case.steps[i].clone();
        let mut s = Src::new(&w);
        match s.weighted(&[6, 1, 1, 1, 3]) {
            0 => {
                // the next few entries of the tape are the operations of this pass
                let n = s.range(1, 5) as usize;
                let again = s.range(1, 3);
                let pick = s.word();
                let steps = case.steps[i + 1..(i + 1 + n).min(case.steps.len())].to_vec();
                i += n;
                let b = prog::build(&Case { head: case.head.clone(), steps }, &O);
                let p = &b.prog;
                passes += 1;
                ctx.desc(|| format!("pass: {} x{}", p.show(), again));
                {
                    let mut v: Vec<Node> = params.iter_mut().map(Node::from).collect();
                    for st in &p.steps {
                        let r = {
                            let a: Vec<&Node> = st.args.iter().map(|&i| &v[i]).collect();
                            apply_node(&st.op, &a)
                        };
                        v.extend(r);
                    }
                    for r in 0..again {
                        let root = if r == 0 { p.len() - 1 } else { mix(pick as u64 + r as u64) as usize % p.len() };
                        v[root].backward();
                        let seeds: Vec<(u32, f32)> = b.rts[root].id.iter().map(|&i| (i, 1.0)).collect();
                        let g = b.tape.gradients(&seeds);
                        for k in 0..np {
                            for (a, &id) in acc[k].v.iter_mut().zip(&b.rts[k].id) {
                                let (x, e) = (g.g[id as usize], g.e[id as usize]);
                                a.0 += x;
                                a.1 += e;
                                if a.1 > 0.0 || a.0.fract() != 0.0 || a.0.abs() > 1e7 {
                                    a.1 += 1.2e-7 * (a.0.abs() + x.abs());
                                }
                            }
                        }
                    }
                }
            }
            1 => {
                let k = s.index(np);
                params[k].reset_gradient();
                acc[k].v.iter_mut().for_each(|a| *a = (0.0, 0.0));
                ctx.desc(|| format!("reset {}", k));
            }
            2 => {
                // a gradient that overflowed, then cleared
                let k = s.index(np);
                let bad = *s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, -0.0]);
                let how = s.below(3);
                let at = s.index(shapes[k].size());
                ctx.desc(|| format!("gradient of {} becomes {:?} at {}, cleared in way {}", k, bad, at, how));
                let mut g = params[k].gradient.to_vec();
                g[at] = bad;
                dev.reset_tensor_by_slice(&mut params[k].gradient, &g);
                match how {
                    0 => params[k].reset_gradient(),
                    1 => params[k].gradient.reset(0.0),
                    _ => params[k].reset_gradient(),
                }
                acc[k].v.iter_mut().for_each(|a| *a = (0.0, 0.0));
                let g = params[k].gradient.to_vec();
                if g.iter().any(|&x| x != 0.0) {
                    return Err(format!("gradient of parameter {} after a reset is {:?}", k, g));
                }
            }
            3 => {
                // an update with step zero: clears gradients of the updated parameters only
                let k = s.index(np);
                let which = s.below(3);
                let finite = params[k].gradient.to_vec().iter().all(|g| g.abs() < 1e15);
                ctx.desc(|| format!("update {} with optimizer {}", k, which));
                let clip = s.chance(1, 4);
                match if finite { which } else { 0 } {
                    0 => update_with(pu::optimizers::SGD::new(0.0), &mut params[k], clip && finite),
                    1 => update_with(pu::optimizers::MomentumSGD::new(0.0, 0.0), &mut params[k], clip),
                    _ => update_with(pu::optimizers::Adam::new(0.0, 0.9, 0.999, 1e-8), &mut params[k], clip),
                }
                acc[k].v.iter_mut().for_each(|a| *a = (0.0, 0.0));
            }
            _ => {
                // events that ask for no clearing
                let k = s.index(np);
                let what = s.below(11);
                ctx.desc(|| format!("event {} on {}", what, k));
                match what {
                    0 => pu::optimizers::SGD::new(0.1).configure_parameter(&mut params[k]),
                    1 => pu::optimizers::MomentumSGD::new(0.1, 0.9).configure_parameter(&mut params[k]),
                    2 => pu::optimizers::Adam::new(0.1, 0.9, 0.999, 1e-8).configure_parameter(&mut params[k]),
                    3 => {
                        let name = ["a", "gradient", "value", "Adam.m3", ""][s.index(5)];
                        if !params[k].has_stat(name) {
                            let sh = params[k].shape();
                            params[k].add_stat(name, sh);
                        }
                    }
                    4 => {
                        let mut all: Vec<&mut Parameter> = params.iter_mut().collect();
                        pu::optimizers::Adam::new(0.1, 0.9, 0.999, 1e-8).configure_parameters(&mut all);
                    }
                    5 => pu::optimizers::MomentumSGD::new(0.1, 0.9).configure_model(&mut params),
                    6 => {
                        serde_json::to_string(&params[k]).unwrap();
                    }
                    7 => {
                        // a node nobody propagates through
                        let n = Node::from(&mut params[k]);
                        let m = &n * 2.0;
                        if s.bool() {
                            m.to_vec();
                        }
                    }
                    8 => {
                        let t = Tensor::from(&mut params[k]);
                        check_exact("copy of a parameter", &t.to_vec(), &vals[k])?;
                    }
                    9 => {
                        params[k].value.reset(7.0);
                        dev.reset_tensor_by_slice(&mut params[k].value, &vals[k]);
                    }
                    _ => {
                        // an update of no parameters
                        pu::optimizers::SGD::new(0.1).update_parameters(&mut []);
                        let all = pu::Model::parameters_mut(&mut params).len();
                        if all != np {
                            return Err(format!("{} of {} parameters listed", all, np));
                        }
                    }
                }
            }
        }
        for k in 0..np {
            for (j, (&x, a)) in params[k].gradient.to_vec().iter().zip(&acc[k].v).enumerate() {
                if !close(x, a.0, a.1) {
                    return Err(format!("gradient of parameter {} at {} is {:?}, expected {:?} (allowed {:.3e})", k, j, x, a.0, SLACK * a.1));
                }
            }
            check_exact("parameter value", &params[k].value.to_vec(), &vals[k])?;
        }
        i += 1;
    }
    if passes >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C11",
        rule: "histories over a fixed set of up to 4 parameters: random graphs over them with one to three backward passes each, explicit gradient resets, updates with step zero of single parameters, and events that ask for no clearing (registration with optimizers, new statistics, serialising, copies, graphs nobody propagates through, updates of other parameters); after every event every parameter's gradient against the accumulated reference adjoints; non-trivial with at least two graphs in one history",
        assumptions: &["points without a derivative are left out by construction"],
        subs: vec![Sub { name: "history", head: 24, steps: (4, 24), step_len: 36, quick: 300_000, thorough: 12_000_000, run: history }],
    })
}
