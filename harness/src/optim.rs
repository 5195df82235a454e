//! Reference model of the optimizers and a driver for histories of gradients and updates.
use crate::*;
use pu::optimizers::{Adam, MomentumSGD, SGD};

pub const UU: f64 = 1.2e-7;

#[derive(Clone, Debug)]
pub enum Kind3 {
    Sgd { eta: f32 },
    Momentum { eta: f32, momentum: f32 },
    Adam { alpha: f32, b1: f32, b2: f32, eps: f32 },
}

pub enum Real {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}

/// runs `f` on whichever optimizer it is
#[macro_export]
macro_rules! each_opt {
    ($r:expr, $o:ident => $e:expr) => {
        match $r {
            $crate::optim::Real::S($o) => $e,
            $crate::optim::Real::M($o) => $e,
            $crate::optim::Real::A($o) => $e,
        }
    };
}

pub struct Opt {
    pub kind: Kind3,
    pub real: Real,
    pub epoch: u32,
    pub lr: f32,
    pub decay: f32,
    pub clip: f32,
}

impl Opt {
    pub fn new(kind: Kind3) -> Opt {
        let real = match kind {
            Kind3::Sgd { eta } => Real::S(SGD::new(eta)),
            Kind3::Momentum { eta, momentum } => Real::M(MomentumSGD::new(eta, momentum)),
            Kind3::Adam { alpha, b1, b2, eps } => Real::A(Adam::new(alpha, b1, b2, eps)),
        };
        Opt { kind, real, epoch: 0, lr: 1.0, decay: 0.0, clip: 0.0 }
    }

    pub fn set_lr(&mut self, v: f32) {
        self.lr = v;
        each_opt!(&mut self.real, o => o.set_learning_rate_scaling(v))
    }
    pub fn set_decay(&mut self, v: f32) {
        self.decay = v;
        each_opt!(&mut self.real, o => o.set_weight_decay(v))
    }
    pub fn set_clip(&mut self, v: f32) {
        self.clip = v;
        each_opt!(&mut self.real, o => o.set_gradient_clipping(v))
    }
    pub fn set_epoch(&mut self, v: u32) {
        self.epoch = v;
        each_opt!(&mut self.real, o => *o.epoch() = v)
    }
    pub fn check_settings(&mut self) -> Result<(), String> {
        let (e, l, d, c) = each_opt!(&mut self.real, o => {
            (*o.epoch(), o.get_learning_rate_scaling(), o.get_weight_decay(), o.get_gradient_clipping())
        });
        if e != self.epoch {
            return Err(format!("epoch of {:?} is {}, expected {}", self.kind, e, self.epoch));
        }
        if (l, d, c) != (self.lr, self.decay, self.clip) {
            return Err(format!("settings of {:?} read back as {:?}, set to {:?}", self.kind, (l, d, c), (self.lr, self.decay, self.clip)));
        }
        Ok(())
    }
    pub fn configure(&self, p: &mut Parameter, how: u32) {
        match how {
            0 => each_opt!(&self.real, o => o.configure_parameter(p)),
            _ => each_opt!(&self.real, o => o.configure_parameters(&mut [p])),
        }
    }
}

pub fn choose_opt(s: &mut Src) -> Kind3 {
    let eta = s.either(&[0.1f32, 1.0, 0.5, 0.01, 0.0, 2.0], 0.0, 2.0);
    match s.below(3) {
        0 => Kind3::Sgd { eta },
        1 => Kind3::Momentum { eta, momentum: s.either(&[0.9f32, 0.5, 0.0, 1.0, 0.99], 0.0, 1.0) },
        _ => Kind3::Adam {
            alpha: eta,
            b1: s.either(&[0.9f32, 0.5, 0.0, 0.99], 0.0, 0.995),
            b2: s.either(&[0.999f32, 0.9, 0.5, 0.99], 0.4, 0.9995),
            eps: s.either(&[1e-8f32, 1e-3, 0.1, 1.0, 1e-6, 1e-10], 1e-9, 2.0),
        },
    }
}

/// a number with an error bound
#[derive(Clone, Copy, Debug, Default)]
pub struct Q {
    pub v: f64,
    pub e: f64,
}

impl Q {
    pub fn exact(x: f32) -> Q {
        Q { v: x as f64, e: 0.0 }
    }
}

/// Everything the model remembers about a parameter: only statistics; value and gradient are read
/// before each update.
#[derive(Clone, Default)]
pub struct Stats {
    pub m: Option<Vec<Q>>,
    pub m1: Option<Vec<Q>>,
    pub m2: Option<Vec<Q>>,
}

impl Stats {
    pub fn configure(&mut self, k: &Kind3, n: usize) {
        let zero = || Some(vec![Q::default(); n]);
        match k {
            Kind3::Sgd { .. } => {}
            Kind3::Momentum { .. } => {
                if self.m.is_none() {
                    self.m = zero()
                }
            }
            Kind3::Adam { .. } => {
                if self.m1.is_none() {
                    self.m1 = zero();
                    self.m2 = zero();
                }
            }
        }
    }
    pub fn ready(&self, k: &Kind3) -> bool {
        match k {
            Kind3::Sgd { .. } => true,
            Kind3::Momentum { .. } => self.m.is_some(),
            Kind3::Adam { .. } => self.m1.is_some(),
        }
    }
}

/// the gradients an update works with: decayed, then clipped together
pub fn effective(opt: &Opt, values: &[Vec<f32>], grads: &[Vec<f32>]) -> Vec<Vec<Q>> {
    let mut g: Vec<Vec<Q>> = grads
        .iter()
        .zip(values)
        .map(|(gs, vs)| {
            gs.iter()
                .zip(vs)
                .map(|(&g, &v)| {
                    if opt.decay > 0.0 {
                        let d = opt.decay as f64 * v as f64;
                        let w = g as f64 + d;
                        Q { v: w, e: UU * (d.abs() + w.abs()) + 1e-44 }
                    } else {
                        Q::exact(g)
                    }
                })
                .collect()
        })
        .collect();
    if opt.clip > 0.0 {
        let n: usize = g.iter().map(|x| x.len()).sum();
        let sq: f64 = g.iter().flatten().map(|q| q.v * q.v).sum();
        let sqe: f64 = g.iter().flatten().map(|q| 2.0 * q.v.abs() * q.e).sum::<f64>() + UU * (n as f64 + 2.0) * sq + 1e-44;
        let norm = sq.sqrt();
        let thr = opt.clip as f64;
        if sq + 8.0 * sqe > thr * thr * (1.0 - 4.0 * UU) {
            let f = if norm > thr { thr / norm } else { 1.0 };
            let fe = f * (0.6 * sqe / sq.max(1e-300) + 4.0 * UU);
            for q in g.iter_mut().flatten() {
                q.e = q.e * f + q.v.abs() * fe + UU * q.v.abs() * f;
                q.v *= f;
            }
        }
    }
    g
}

/// one update of one parameter; returns the expected new value
pub fn step(opt: &Opt, st: &mut Stats, value: &[f32], g: &[Q]) -> Vec<Q> {
    let k = opt.lr as f64;
    let mut out = Vec::with_capacity(value.len());
    for i in 0..value.len() {
        let q = g[i];
        let v0 = value[i] as f64;
        let (d, de) = match opt.kind {
            Kind3::Sgd { eta } => {
                let c = k * eta as f64;
                let d = c * q.v;
                (-d, c * q.e + 2.0 * UU * d.abs())
            }
            Kind3::Momentum { eta, momentum } => {
                let m = &mut st.m.as_mut().unwrap()[i];
                let c = k * eta as f64;
                let (a, b) = (momentum as f64 * m.v, c * q.v);
                let w = a - b;
                *m = Q { v: w, e: momentum as f64 * m.e + c * q.e + UU * (a.abs() + 2.0 * b.abs() + w.abs()) + 1e-44 };
                (m.v, m.e)
            }
            Kind3::Adam { alpha, b1, b2, eps } => {
                let (b1, b2) = (b1 as f64, b2 as f64);
                let m1 = &mut st.m1.as_mut().unwrap()[i];
                let (a, b) = (b1 * m1.v, (1.0 - b1) * q.v);
                let w = a + b;
                *m1 = Q { v: w, e: b1 * m1.e + (1.0 - b1) * q.e + UU * (a.abs() + 2.0 * b.abs() + w.abs()) + 1e-44 };
                let m1 = *m1;
                let m2 = &mut st.m2.as_mut().unwrap()[i];
                let (a, b) = (b2 * m2.v, (1.0 - b2) * q.v * q.v);
                let w = a + b;
                *m2 = Q { v: w, e: b2 * m2.e + (1.0 - b2) * 2.0 * q.v.abs() * q.e + UU * (a.abs() + 3.0 * b.abs() + w.abs()) + 1e-44 };
                let m2 = *m2;
                let n = opt.epoch as f64 + 1.0;
                let corr = |b: f64| {
                    let p = b.powf(n);
                    let c = 1.0 - p;
                    (c, (n.min(1e4) + 4.0) * UU * p + UU * c)
                };
                let (c1, c1e) = corr(b1);
                let (c2, c2e) = corr(b2);
                let x = m1.v / c1;
                let xe = m1.e / c1 + x.abs() * (c1e / c1 + UU);
                let y = m2.v / c2;
                let ye = m2.e / c2 + y.abs() * (c2e / c2 + UU);
                let r = y.sqrt();
                // |sqrt(y+d) - sqrt(y)| <= min(d/sqrt(y), sqrt(d))
                let re = if r > 0.0 { (ye / r).min(ye.sqrt()) } else { ye.sqrt() } + UU * r;
                let den = r + eps as f64;
                let dene = re + UU * den;
                let ca = k * alpha as f64;
                let d = ca * x / den;
                let de = ca * xe / den + d.abs() * (dene / den + 4.0 * UU);
                (-d, de)
            }
        };
        let v = v0 + d;
        let e = if d == 0.0 && de < 1e-40 { 0.0 } else { de + UU * (v.abs() + d.abs()) };
        out.push(Q { v, e });
    }
    out
}

pub fn check_q(what: &str, got: &[f32], want: &[Q]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} elements, expected {}", what, got.len(), want.len()));
    }
    for (i, (&x, q)) in got.iter().zip(want).enumerate() {
        if !close(x, q.v, q.e) {
            return Err(format!("{}: element {} is {:?}, expected {:?} (allowed {:.3e})", what, i, x, q.v, SLACK * q.e));
        }
    }
    Ok(())
}

/// value, gradient and statistics, bit for bit
pub fn snapshot(p: &Parameter) -> Vec<(String, Vec<u32>)> {
    let mut v = vec![
        ("value".to_string(), bits(&p.value.to_vec())),
        ("gradient".to_string(), bits(&p.gradient.to_vec())),
    ];
    for (k, t) in &p.stats {
        v.push((k.clone(), bits(&t.borrow().to_vec())));
    }
    v.sort();
    v
}

pub fn same_snapshot(what: &str, a: &[(String, Vec<u32>)], b: &[(String, Vec<u32>)]) -> Result<(), String> {
    let names = |x: &[(String, Vec<u32>)]| x.iter().map(|y| y.0.clone()).collect::<Vec<_>>();
    if names(a) != names(b) {
        return Err(format!("{}: has {:?}, expected {:?}", what, names(a), names(b)));
    }
    for (x, y) in a.iter().zip(b) {
        if x.1 != y.1 {
            let i = x.1.iter().zip(&y.1).position(|(p, q)| p != q);
            return Err(match i {
                Some(i) => format!(
                    "{}: {} element {} is {:?}, expected {:?}",
                    what,
                    x.0,
                    i,
                    f32::from_bits(x.1[i]),
                    f32::from_bits(y.1[i])
                ),
                None => format!("{}: {} has {} elements, expected {}", what, x.0, x.1.len(), y.1.len()),
            });
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub struct HistOpts {
    /// weight decay, clipping and learning-rate scaling may be switched on
    pub features: bool,
}

pub fn param_shape(s: &mut Src) -> Sh {
    let dims: Vec<u32> = match s.weighted(&[3, 4, 4, 1, 1]) {
        0 => vec![],
        1 => vec![s.range(1, 6)],
        2 => vec![s.range(1, 4), s.range(1, 4)],
        3 => vec![s.range(60, 140)],
        _ => vec![2, 3, 2],
    };
    Sh::new(&dims, 1)
}

pub fn values(s: &mut Src, n: usize) -> Vec<f32> {
    let m = *s.pick(&[Mode::Signed(0.1, 2.0), Mode::Ints(4), Mode::Real(-10.0, 10.0), Mode::Log(-12, 6), Mode::Const(0.0), Mode::Signed(1e-7, 2e-6), Mode::Signed(1e2, 1e5)]);
    Vals { mode: m, seed: s.word(), exp: 0 }.fill(n)
}

/// a history over several parameters and several optimizers
pub fn history(case: &Case, ctx: &mut Ctx, o: HistOpts) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let np = s.range(1, 5) as usize;
    let no = s.range(1, 3) as usize;
    // now and then a great many parameters, drawn from one word
    let crowd = if s.chance(1, 12) { s.range(6, 70) as usize } else { 0 };
    let cw = s.word() as u64;
    let np = np.max(crowd);
    let mut params: Vec<Parameter> = vec![];
    for i in 0..np {
        let (sh, v) = if crowd > 0 {
            let h = mix(cw ^ (i as u64) << 16);
            let sh = Sh::new(&[h as u32 % 3 + 1], 1);
            let v = Vals { mode: Mode::Signed(0.1, 2.0), seed: (h >> 20) as u32, exp: 0 }.fill(sh.size());
            (sh, v)
        } else {
            let sh = param_shape(&mut s);
            let v = values(&mut s, sh.size());
            (sh, v)
        };
        ctx.desc(|| format!("param {} {:?}", sh.show(), v.iter().take(4).collect::<Vec<_>>()));
        params.push(Parameter::new(mk(&dev, &sh, &v), dev.new_tensor_by_constant(to_shape(&sh), 0.0)));
    }
    let mut opts: Vec<Opt> = vec![];
    for _ in 0..no {
        let k = choose_opt(&mut s);
        ctx.desc(|| format!("{:?}", k));
        opts.push(Opt::new(k));
    }
    let mut stats = vec![Stats::default(); np];
    let mut registered = vec![vec![false; np]; no];
    for j in 0..no {
        for k in 0..np {
            if if crowd > 0 { mix(cw ^ (j * 1000 + k) as u64) % 8 != 0 } else { s.chance(2, 3) } {
                opts[j].configure(&mut params[k], s.below(2));
                stats[k].configure(&opts[j].kind, params[k].value.shape().size() as usize);
                registered[j][k] = true;
            }
        }
    }
    ctx.desc(|| format!("registered {:?}", registered));
    let mut updates = 0;
    let mut featured = 0;
    let mut before: Vec<_> = params.iter().map(snapshot).collect();
    'history: for w in &case.steps {
        let mut s = Src::new(w);
        let mut touched = vec![false; np];
        match s.weighted(&[5, 7, 2, if o.features { 3 } else { 1 }, 1]) {
            0 => {
                // gradients arrive
                let gw = if crowd > 0 { s.word() as u64 } else { 0 };
                for k in 0..np {
                    if crowd == 0 && !s.chance(2, 3) {
                        continue;
                    }
                    touched[k] = true;
                    let n = params[k].value.shape().size() as usize;
                    let g = if crowd > 0 {
                        Vals { mode: Mode::Signed(0.1, 2.0), seed: mix(gw ^ (k as u64) << 40) as u32, exp: 0 }.fill(n)
                    } else {
                        values(&mut s, n)
                    };
                    match if crowd > 0 { 0 } else { s.below(3) } {
                        0 => {
                            dev.reset_tensor_by_slice(&mut params[k].gradient, &g);
                            check_exact("gradient set", &params[k].gradient.to_vec(), &g)?;
                        }
                        1 => {
                            let sh = from_shape(params[k].value.shape());
                            params[k].gradient += mk(&dev, &sh, &g);
                        }
                        _ => {
                            // through a graph: sum of p * g
                            let sh = from_shape(params[k].value.shape());
                            let old = params[k].gradient.to_vec();
                            {
                                let p = Node::from(&mut params[k]);
                                let c = Node::from(mk(&dev, &sh, &g));
                                (&p * &c).backward();
                            }
                            let want: Vec<f32> = old.iter().zip(&g).map(|(a, b)| a + b).collect();
                            check_exact("gradient of a parameter after a pass", &params[k].gradient.to_vec(), &want)?;
                        }
                    }
                    ctx.desc(|| format!("gradient {} {:?}", k, g.iter().take(4).collect::<Vec<_>>()));
                }
            }
            1 => {
                let j = s.index(no);
                // now and then the same update over and over, with new gradients each time
                let (reps, rw) = if s.chance(1, 24) { (s.range(8, 150), s.word() as u64) } else { (1, 0) };
                let mut set: Vec<usize> = (0..np).filter(|&k| registered[j][k] && (crowd > 0 || s.chance(4, 5))).collect();
                if crowd > 0 {
                    // any number of them
                    let h = s.word() as u64;
                    set.retain(|&k| h % 3 != 0 || mix(h ^ k as u64) % 4 != 0);
                    set.truncate(set.len().saturating_sub((h >> 8) as usize % 4).max(1));
                }
                if s.chance(1, 4) {
                    set.reverse();
                }
                for rep in 0..reps {
                    if rep > 0 {
                        for &k in &set {
                            let n = params[k].value.shape().size() as usize;
                            let g = Vals { mode: Mode::Signed(0.05, 1.0), seed: mix(rw ^ (rep as u64) << 32 ^ (k as u64) << 48) as u32, exp: 0 }.fill(n);
                            dev.reset_tensor_by_slice(&mut params[k].gradient, &g);
                        }
                    }
                    let vals: Vec<Vec<f32>> = set.iter().map(|&k| params[k].value.to_vec()).collect();
                    let grads: Vec<Vec<f32>> = set.iter().map(|&k| params[k].gradient.to_vec()).collect();
                    if vals.iter().chain(&grads).flatten().any(|x| !(x.abs() < 1e12)) {
                        // the history diverged
                        break 'history;
                    }
                    let g = effective(&opts[j], &vals, &grads);
                    let mut want = vec![];
                    for (i, &k) in set.iter().enumerate() {
                        want.push(step(&opts[j], &mut stats[k], &vals[i], &g[i]));
                        touched[k] = true;
                    }
                    let decayed = opts[j].decay > 0.0 || opts[j].clip > 0.0 || opts[j].lr != 1.0;
                    ctx.desc(|| format!("update {} by optimizer {}", set.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","), j));
                    {
                        let mut slots: Vec<Option<&mut Parameter>> = params.iter_mut().map(Some).collect();
                        let mut list: Vec<&mut Parameter> = set.iter().map(|&k| slots[k].take().unwrap()).collect();
                        each_opt!(&mut opts[j].real, r => r.update_parameters(&mut list));
                    }
                    opts[j].epoch = opts[j].epoch.wrapping_add(1);
                    updates += !set.is_empty() as usize;
                    featured += (decayed && !set.is_empty()) as usize;
                    for (i, &k) in set.iter().enumerate() {
                        check_q(&format!("value of parameter {} after an update by {:?} (number {} in a row)", k, opts[j].kind, rep + 1), &params[k].value.to_vec(), &want[i])?;
                        if params[k].gradient.to_vec().iter().any(|&x| x != 0.0) {
                            return Err(format!("gradient of parameter {} is not cleared by the update", k));
                        }
                    }
                }
            }
            2 => {
                let j = s.index(no);
                let k = s.index(np);
                let how = s.below(2);
                // alone or in a list, others of which may be registered already
                let mut set = vec![k];
                if how == 1 && s.bool() {
                    let (m, from) = (s.word() as u64, s.index(np));
                    set = (0..np).map(|i| (i + from) % np).filter(|&i| i == k || mix(m ^ (i as u64) << 32) % 3 != 0).collect();
                }
                ctx.desc(|| format!("add parameters {:?} to optimizer {}", set, j));
                if set.len() == 1 {
                    opts[j].configure(&mut params[k], how);
                } else {
                    let mut slots: Vec<Option<&mut Parameter>> = params.iter_mut().map(Some).collect();
                    let mut list: Vec<&mut Parameter> = set.iter().map(|&k| slots[k].take().unwrap()).collect();
                    each_opt!(&opts[j].real, o => o.configure_parameters(&mut list));
                }
                for &k in &set {
                    let n = params[k].value.shape().size() as usize;
                    stats[k].configure(&opts[j].kind, n);
                    registered[j][k] = true;
                    // values, gradients and statistics of earlier registrations stay
                    let now = snapshot(&params[k]);
                    let old: Vec<_> = now.iter().filter(|x| before[k].iter().any(|y| y.0 == x.0)).cloned().collect();
                    same_snapshot("parameter after registration", &old, &before[k])?;
                    for x in now.iter().filter(|x| !before[k].iter().any(|y| y.0 == x.0)) {
                        if x.1.len() != n || x.1.iter().any(|&b| f32::from_bits(b) != 0.0) {
                            return Err(format!("new statistic {} does not start at zero in the parameter's size", x.0));
                        }
                    }
                    touched[k] = true;
                }
            }
            3 => {
                let j = s.index(no);
                match s.below(if o.features { 5 } else { 1 }) {
                    4 => {
                        // refused, and everything stays as it was
                        let (which, v) = (s.below(3), *s.pick(&[-1.0f32, -1e-3, -0.5, f32::NEG_INFINITY, -1e30]));
                        ctx.desc(|| format!("setting {} of {} = {}", which, j, v));
                        let real = &mut opts[j].real;
                        if guarded(|| each_opt!(real, o => match which {
                            0 => o.set_learning_rate_scaling(v),
                            1 => o.set_weight_decay(v),
                            _ => o.set_gradient_clipping(v),
                        })).is_ok() {
                            return Err(format!("setting {} accepted {}", which, v));
                        }
                    }
                    0 => {
                        let e = match s.below(3) {
                            0 => *s.pick(&[0u32, 1, 2, 7, 100, 1000, 100_000]),
                            1 => (1u32 << s.range(0, 31)) - 1 + s.below(2),
                            _ => s.range(0, 4_000_000_000) >> s.below(32),
                        };
                        opts[j].set_epoch(e);
                        ctx.desc(|| format!("epoch of {} = {}", j, e));
                    }
                    1 => {
                        let v = s.either(&[1.0f32, 0.5, 2.0, 0.0, 0.1, 1e-7, 1e4], 0.0, 3.0);
                        opts[j].set_lr(v);
                        ctx.desc(|| format!("scaling of {} = {}", j, v));
                    }
                    2 => {
                        let v = s.either(&[0.0f32, 0.1, 0.5, 1e-3, 2.0, 1e-6, 1e-9, 300.0], 0.0, 2.0);
                        opts[j].set_decay(v);
                        ctx.desc(|| format!("decay of {} = {}", j, v));
                    }
                    _ => {
                        let v = s.either(&[0.0f32, 1.0, 0.1, 5.0, 20.0, 1e-3, 1e-6, 1e-8, 1e3], 0.0, 30.0);
                        opts[j].set_clip(v);
                        ctx.desc(|| format!("clip of {} = {}", j, v));
                    }
                }
            }
            _ => {
                let k = s.index(np);
                params[k].reset_gradient();
                touched[k] = true;
                ctx.desc(|| format!("reset gradient {}", k));
                if params[k].gradient.to_vec().iter().any(|&x| x != 0.0) {
                    return Err("gradient not zero after reset".into());
                }
            }
        }
        for k in 0..np {
            let now = snapshot(&params[k]);
            if !touched[k] {
                same_snapshot(&format!("parameter {} (untouched)", k), &now, &before[k])?;
            }
            before[k] = now;
        }
        for op in opts.iter_mut() {
            op.check_settings()?;
        }
    }
    if updates >= 2 && (!o.features || featured >= 1) {
        ctx.nontrivial();
    }
    Ok(())
}
