use harness::optim::*;
use harness::*;
use serde::{Deserialize, Serialize};

#[derive(Model, Serialize, Deserialize)]
struct Net<'d> {
    ps: Vec<Parameter<'d>>,
}

fn fresh(kind: &Kind3, epoch: u32, lr: f32, decay: f32, clip: f32) -> Opt {
    let mut o = Opt::new(kind.clone());
    o.set_lr(lr);
    o.set_decay(decay);
    o.set_clip(clip);
    o.set_epoch(epoch);
    o
}

#[derive(Clone, Debug)]
enum Act {
    Set(usize, Vec<f32>),
    Graph(Vec<f32>, u32),
    Update(usize),
    Lr(usize, f32),
    Decay(usize, f32),
    Clip(usize, f32),
    /// save and load; the form, and whether parameters are added to the optimizers again
    Save(u32),
}

/// the network's loss: a small function of all parameters and the input
fn backward<'d>(dev: &'d Device<'d>, net: &mut Net<'d>, x: &[f32], kind: u32) {
    let xs: Vec<Node> = x.iter().map(|&v| Node::from(mk(dev, &Sh::new(&[], 1), &[v]))).collect();
    let mut acc: Option<Node> = None;
    for (i, p) in net.ps.iter_mut().enumerate() {
        if kind >> i & 1 == 1 {
            continue;
        }
        let w = Node::from(p);
        let y = (&w * &xs[i % xs.len()]).tanh().flatten().sum(0);
        acc = Some(match acc {
            None => y,
            Some(a) => a * &y + y,
        });
    }
    if let Some(a) = acc {
        a.backward();
    }
}

fn perform<'d>(dev: &'d Device<'d>, net: &mut Net<'d>, opts: &mut [Opt], sets: &[Vec<usize>], a: &Act) {
    match a {
        Act::Set(k, g) => {
            let n = net.ps[*k].shape().size() as usize;
            dev.reset_tensor_by_slice(&mut net.ps[*k].gradient, &g[..n]);
        }
        Act::Graph(x, kind) => backward(dev, net, x, *kind),
        Act::Update(j) => {
            let mut slots: Vec<Option<&mut Parameter>> = net.ps.iter_mut().map(Some).collect();
            let mut list: Vec<&mut Parameter> = sets[*j].iter().map(|&k| slots[k].take().unwrap()).collect();
            each_opt!(&mut opts[*j].real, r => r.update_parameters(&mut list));
            opts[*j].epoch += 1;
        }
        Act::Lr(j, v) => opts[*j].set_lr(*v),
        Act::Decay(j, v) => opts[*j].set_decay(*v),
        Act::Clip(j, v) => opts[*j].set_clip(*v),
        Act::Save(_) => {}
    }
}

fn bytes(form: u32, net: &Net) -> Vec<u8> {
    match form % 3 {
        0 => serde_json::to_string(net).unwrap().into_bytes(),
        1 => serde_json::json!(net).to_string().into_bytes(),
        _ => bincode::serialize(net).unwrap(),
    }
}

fn unbytes<'d>(form: u32, b: &[u8]) -> Result<Net<'d>, String> {
    match form % 3 {
        2 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}

fn run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev_a = D::Naive::new();
    let np = s.range(1, 4) as usize;
    let no = s.weighted(&[4, 1]) + 1;
    let mut init = vec![];
    for _ in 0..np {
        let sh = param_shape(&mut s);
        let v = values(&mut s, sh.size());
        init.push((sh, v));
    }
    let kinds: Vec<Kind3> = (0..no).map(|_| choose_opt(&mut s)).collect();
    let mut sets: Vec<Vec<usize>> = vec![];
    for _ in 0..no {
        sets.push((0..np).filter(|_| !s.chance(1, 4)).collect());
    }
    let epochs: Vec<u32> = (0..no).map(|_| *s.pick(&[0u32, 0, 0, 3, 50])).collect();
    let sizes: Vec<usize> = init.iter().map(|x| x.0.size()).collect();
    ctx.desc(|| format!("{} parameters, {:?}, sets {:?}", np, kinds, sets));
    let mut acts = vec![];
    for w in &case.steps {
        let mut s = Src::new(w);
        let j = s.index(no);
        acts.push(match s.weighted(&[4, 2, 6, 1, 1, 1, 3]) {
            0 => {
                let k = s.index(np);
                Act::Set(k, values(&mut s, sizes[k]))
            }
            1 => Act::Graph((0..2).map(|_| s.real(-2.0, 2.0)).collect(), s.below(16)),
            2 => Act::Update(j),
            3 => Act::Lr(j, s.either(&[1.0f32, 0.5, 2.0, 0.1], 0.0, 2.0)),
            4 => Act::Decay(j, s.either(&[0.0f32, 0.1, 0.5, 1e-3], 0.0, 0.5)),
            5 => Act::Clip(j, s.either(&[0.0f32, 1.0, 0.1, 5.0], 0.0, 5.0)),
            _ => Act::Save(s.below(12)),
        });
        let a = acts.last().unwrap().clone();
        ctx.desc(|| match a {
            Act::Set(k, g) => format!("gradient {} {:?}", k, g.iter().take(3).collect::<Vec<_>>()),
            a => format!("{:?}", a),
        });
    }
    let start = |dev: &'static Device<'static>| Net {
        ps: init.iter().map(|(sh, v)| Parameter::new(mk(dev, sh, v), dev.new_tensor_by_constant(to_shape(sh), 0.0))).collect(),
    };
    let begin = |net: &mut Net| -> Vec<Opt> {
        let opts: Vec<Opt> = kinds.iter().zip(&epochs).map(|(k, &e)| fresh(k, e, 1.0, 0.0, 0.0)).collect();
        for (o, set) in opts.iter().zip(&sets) {
            for &k in set {
                o.configure(&mut net.ps[k], 0);
            }
        }
        opts
    };
    // SAFETY: the devices outlive everything on them: they are leaked or declared first
    let dev_a: &'static Device<'static> = unsafe { &*(&dev_a as *const Device<'static>) };
    let mut one = start(dev_a);
    let mut opts_one = begin(&mut one);

    let mut devs: Vec<Box<Device<'static>>> = vec![Box::new(D::Naive::new())];
    let at = |d: &Box<Device<'static>>| -> &'static Device<'static> { unsafe { &*(&**d as *const Device<'static>) } };
    let mut dev = at(&devs[0]);
    let mut two = start(dev);
    let mut opts_two = begin(&mut two);
    let (mut saves, mut updates, mut useful) = (0, 0, false);
    for (step, a) in acts.iter().enumerate() {
        if let Act::Save(how) = a {
            // the work stops here: everything goes, only the saved bytes stay
            let b = bytes(*how, &two);
            let settings: Vec<(u32, f32, f32, f32)> = opts_two.iter_mut().map(|o| (o.epoch, o.lr, o.decay, o.clip)).collect();
            drop(two);
            drop(opts_two);
            devs.clear();
            devs.push(Box::new(D::Naive::new()));
            dev = at(&devs[0]);
            dirty(dev, 256, 2, f32::NAN);
            let mut net = unbytes(*how, &b).map_err(|e| format!("the saved model does not load: {}", e))?;
            if net.ps.len() != np {
                return Err(format!("{} parameters saved, {} loaded", np, net.ps.len()));
            }
            net.move_to_device(dev);
            opts_two = kinds.iter().zip(&settings).map(|(k, &(e, l, d, c))| fresh(k, e, l, d, c)).collect();
            if how / 3 != 0 {
                let before: Vec<_> = net.ps.iter().map(snapshot).collect();
                for (o, set) in opts_two.iter().zip(&sets) {
                    for &k in set {
                        o.configure(&mut net.ps[k], how / 6);
                    }
                }
                for (k, p) in net.ps.iter().enumerate() {
                    same_snapshot(&format!("parameter {} registered again after loading", k), &snapshot(p), &before[k])?;
                }
            }
            two = net;
            saves += 1;
            useful |= updates > 0;
        }
        perform(dev_a, &mut one, &mut opts_one, &sets, a);
        perform(dev, &mut two, &mut opts_two, &sets, a);
        if let Act::Update(j) = a {
            updates += !sets[*j].is_empty() as u32;
        }
        for k in 0..np {
            same_snapshot(&format!("parameter {} after step {} (saved and resumed {} times)", k, step, saves), &snapshot(&two.ps[k]), &snapshot(&one.ps[k]))?;
        }
        for (x, y) in opts_one.iter_mut().zip(opts_two.iter_mut()) {
            x.check_settings()?;
            y.check_settings()?;
        }
        if one.ps.iter().any(|p| p.value.to_vec().iter().chain(&p.gradient.to_vec()).any(|v| !v.is_finite() || v.abs() > 1e15)) {
            ctx.label("diverged");
            break;
        }
    }
    if useful && updates >= 2 {
        ctx.nontrivial();
    }
    drop(two);
    drop(one);
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C23",
        rule: "histories of gradients (set or by graphs), updates by one or two optimizers and changed settings, run twice: once without interruption, once saved at generated points (JSON or bincode), everything dropped, loaded on a fresh device with soiled memory and continued with new optimizers of the same settings and epoch, with or without registering the parameters again; value, gradient and statistics bit for bit after every step. Non-trivial: an interruption after an update and two updates.",
        assumptions: &["histories end when a number exceeds 1e15 or stops being finite"],
        subs: vec![Sub { name: "resume", head: 80, steps: (2, 40), step_len: 8, quick: 120_000, thorough: 4_800_000, run }],
    })
}
