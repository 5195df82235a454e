use harness::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

#[derive(Model, Serialize, Deserialize)]
struct Inner<'d> {
    w: Parameter<'d>,
    b: Parameter<'d>,
}

#[derive(Model, Serialize, Deserialize)]
struct Outer<'d> {
    first: Parameter<'d>,
    layers: Vec<Inner<'d>>,
    extra: Vec<Parameter<'d>>,
    last: Inner<'d>,
    #[parameter(skip)]
    name: String,
    #[parameter(skip)]
    epochs: u32,
}

/// the text and binary forms
const FORMS: &[&str] = &["json", "json through a value", "pretty json", "bincode"];

fn save<T: Serialize>(form: usize, x: &T) -> Vec<u8> {
    match form {
        0 => serde_json::to_string(x).unwrap().into_bytes(),
        1 => serde_json::to_value(x).unwrap().to_string().into_bytes(),
        2 => serde_json::to_string_pretty(x).unwrap().into_bytes(),
        _ => bincode::serialize(x).unwrap(),
    }
}

fn load<T: DeserializeOwned>(form: usize, b: &[u8]) -> Result<T, String> {
    let r: Result<T, String> = match form {
        0 => serde_json::from_str(std::str::from_utf8(b).unwrap()).map_err(|e| e.to_string()),
        1 => serde_json::from_str::<serde_json::Value>(std::str::from_utf8(b).unwrap())
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
        2 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        _ => bincode::deserialize(b).map_err(|e| e.to_string()),
    };
    r.map_err(|e| format!("saved {} does not load: {}", FORMS[form], e))
}

fn numbers(s: &mut Src, n: usize) -> Vec<f32> {
    let seed = s.word();
    let m = *s.pick(&[
        Mode::Iota,
        Mode::Signed(0.0, 3.0),
        Mode::Log(-140, 127),
        Mode::Log(-30, 30),
        Mode::Const(0.1),
        Mode::Ints(9),
        Mode::Log(-149, -126),
        Mode::Log(120, 128),
    ]);
    let mut v = Vals { mode: m, seed, exp: 0 }.fill(n);
    if s.chance(1, 3) {
        // any finite bit pattern
        for (i, x) in v.iter_mut().enumerate() {
            let b = f32::from_bits(mix((seed as u64) << 32 | i as u64) as u32);
            *x = b;
        }
    }
    for x in v.iter_mut() {
        if !x.is_finite() {
            *x = f32::MAX;
        }
    }
    if s.chance(1, 4) {
        // few distinct values, all of them, or all but one
        const P: &[f32] = &[0.0, -0.0, 1.0, -1.0, 0.5, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1.0e-45];
        let (a, b) = (*s.pick(P), *s.pick(P));
        let how = s.below(4);
        let at = mix(seed as u64) as usize % n.max(1);
        for (i, x) in v.iter_mut().enumerate() {
            *x = match how {
                0 => if mix((seed as u64) << 32 | i as u64) & 1 == 0 { a } else { b },
                1 => if i == at { b } else { a },
                2 => if i < at { a } else { b },
                _ => a,
            };
        }
    } else if n > 2 && s.chance(1, 4) {
        v[0] = -0.0;
        v[1] = f32::MIN_POSITIVE;
        v[2] = f32::from_bits(1);
    }
    v
}

fn any_shape(s: &mut Src) -> Sh {
    match s.below(4) {
        0 => gen::shape(s, Lim::SMALL),
        1 => gen::shape(s, Lim::BIG),
        2 => {
            // extents up to the limit of the index type, no memory behind it
            let mut dims = vec![];
            let mut left: u64 = u32::MAX as u64;
            for _ in 0..s.below(9) {
                let d = match s.below(3) {
                    0 => 1,
                    1 => s.range(1, 9) as u64,
                    _ => s.range(1, left.min(1 << 20) as u32) as u64,
                }
                .min(left);
                dims.push(d as u32);
                left /= d;
            }
            let b = s.range(1, left.max(1) as u32);
            Sh::new(&dims, b)
        }
        _ => Sh::new(&[], s.range(1, 5)),
    }
}

fn shape(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = any_shape(&mut s);
    let form = s.index(FORMS.len());
    ctx.desc(|| format!("{} as {}", sh.show(), FORMS[form]));
    if !sh.dims.is_empty() {
        ctx.nontrivial();
    }
    let mut x = to_shape(&sh);
    if s.chance(1, 3) {
        // also when it came about by resizing
        let d = s.below(8);
        let old = x[d];
        x.update_dim(d, 1);
        x.update_dim(d, old);
        let b = x.batch();
        x.update_batch(1);
        x.update_batch(b);
    }
    let y: Shape = load(form, &save(form, &x))?;
    if x != y {
        return Err(format!("{:?} comes back as {:?}", x, y));
    }
    if from_shape(y) != sh || y.volume() as usize != sh.volume() || y.size() as usize != sh.size() || y.depth() != sh.depth() || y.dims() != x.dims() || y.batch() != sh.batch {
        return Err(format!("{} comes back as {:?} (depth {}, volume {}, size {})", sh.show(), y, y.depth(), y.volume(), y.size()));
    }
    // saving what was loaded gives the same again
    if save(form, &y) != save(form, &x) {
        return Err("saving again gives something else".into());
    }
    Ok(())
}

fn use_tensor(dev_a: &Device, dev_b: &Device, a: &Tensor, b: &Tensor) -> Result<(), String> {
    let _ = (dev_a, dev_b);
    let (p, q) = ((a * 2.0f32 + a).to_vec(), (b * 2.0f32 + b).to_vec());
    if bits(&p) != bits(&q) {
        return check_bits("2x + x with the loaded tensor", &q, &p);
    }
    check_bits("sum with the loaded tensor", &b.batch_sum().to_vec(), &a.batch_sum().to_vec())?;
    check_bits("flattened", &b.flatten().to_vec(), &a.flatten().to_vec())
}

fn tensor(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let l = if s.chance(1, 6) { Lim::BIG } else { Lim::SMALL };
    let sh = gen::shape(&mut s, l);
    let form = s.index(FORMS.len());
    let mut data = numbers(&mut s, sh.size());
    if form == 3 && s.chance(1, 4) {
        data[0] = f32::INFINITY;
        *data.last_mut().unwrap() = f32::NEG_INFINITY;
    }
    ctx.desc(|| format!("{} as {} {:?}", sh.show(), FORMS[form], data.iter().take(8).collect::<Vec<_>>()));
    if data.len() > 1 {
        ctx.nontrivial();
    }
    let dev = D::Naive::new();
    let t = mk(&dev, &sh, &data);
    let saved = match s.below(3) {
        0 => save(form, &t),
        1 => {
            let view = Tensor::from(&t);
            save(form, &view)
        }
        _ => save(form, &&t),
    };
    check_bits("tensor after saving", &t.to_vec(), &data)?;
    let (dev2, st) = rec_device(true);
    {
        dirty(&dev2, 512, 2, f32::NAN);
        let mut u: Tensor = load(form, &saved)?;
        if from_shape(u.shape()) != sh {
            return Err(format!("shape {} comes back as {:?}", sh.show(), u.shape()));
        }
        u.move_to_device(&dev2);
        if !u.valid() || from_shape(u.shape()) != sh || u.device() != &dev2 {
            return Err("the loaded tensor is not on the device it was moved to".into());
        }
        check_bits("loaded tensor", &u.to_vec(), &data)?;
        use_tensor(&dev, &dev2, &t, &u)?;
        // once more
        let again = save(form, &u);
        if again != saved {
            return Err("saving the loaded tensor gives something else".into());
        }
        // and it is a tensor of its own
        u += &u.device().new_tensor_by_constant(u.shape(), 1.0);
        check_bits("original after the loaded tensor changed", &t.to_vec(), &data)?;
        u.reset(3.0);
        if u.to_vec().iter().any(|&x| x != 3.0) {
            return Err("the loaded tensor cannot be reset".into());
        }
    }
    drop(dev2);
    settled(&st)
}

/// saved data in which the number of values does not fit the shape is refused, at the latest when
/// it is moved to a device
fn damaged(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let sh = gen::shape(&mut s, Lim::SMALL);
    let n = sh.size();
    let m = match s.below(4) {
        0 => n + 1,
        1 => n - 1,
        2 => 0,
        _ => n + s.range(1, 200) as usize,
    };
    ctx.desc(|| format!("{} with {} values", sh.show(), m));
    if m == n {
        return Ok(());
    }
    ctx.nontrivial();
    let vals: Vec<String> = (0..m).map(|i| format!("{}.5", i)).collect();
    let text = format!("{{\"shape\":{},\"values\":[{}]}}", serde_json::to_string(&to_shape(&sh)).unwrap(), vals.join(","));
    let (dev, st) = rec_device(true);
    {
        let dev: &'static Device<'static> = unsafe { &*(&dev as *const Device<'static>) };
        if let Ok(mut t) = serde_json::from_str::<Tensor>(&text) {
            if guarded(|| t.move_to_device(dev)).is_ok() {
                return Err(format!("a saved tensor of shape {} with {} values was moved to a device: {:?}", sh.show(), m, t.to_vec()));
            }
        }
        let w = mk(dev, &sh, &vec![1.5; n]);
        check_bits("a tensor made later", &w.to_vec(), &vec![1.5; n])?;
    }
    drop(dev);
    settled(&st)?;
    // shapes that cannot exist are refused as well
    let d = s.below(3);
    let bad = match d {
        0 => "{\"dims\":[3,0],\"batch\":1}".to_string(),
        1 => "{\"dims\":[2],\"batch\":0}".to_string(),
        _ => format!("{{\"dims\":[{}],\"batch\":1}}", vec!["2"; s.range(9, 12) as usize].join(",")),
    };
    if let Ok(Ok(x)) = guarded(|| serde_json::from_str::<Shape>(&bad)) {
        return Err(format!("{} was read as {:?}", bad, x));
    }
    Ok(())
}

fn fill_parameter<'d>(s: &mut Src, dev: &'d Device<'d>) -> Parameter<'d> {
    let sh = gen::shape(s, Lim::SMALL).with_batch(1);
    let v = numbers(s, sh.size());
    let g = if s.chance(1, 3) { vec![0.0; sh.size()] } else { numbers(s, sh.size()) };
    let mut p = Parameter::new(mk(dev, &sh, &v), mk(dev, &sh, &g));
    for i in 0..s.below(4) {
        let name = format!("{}{}", s.pick(&["Adam.m", "mine", "", "ünïcode \"x\"", "MomentumSGD.m"]), i);
        let ss = if s.bool() { sh.clone() } else { gen::shape(s, Lim::SMALL) };
        p.add_stat(&name, to_shape(&ss));
        let x = numbers(s, ss.size());
        dev.reset_tensor_by_slice(&mut p.stats[&name].borrow_mut(), &x);
    }
    if s.chance(1, 3) {
        pu::optimizers::Adam::new(0.1, 0.9, 0.99, 1e-3).configure_parameter(&mut p);
    }
    p
}

fn same_parameter(what: &str, a: &Parameter, b: &Parameter) -> Result<(), String> {
    optim::same_snapshot(what, &optim::snapshot(b), &optim::snapshot(a))?;
    if a.shape() != b.shape() || a.value.shape() != b.value.shape() || a.gradient.shape() != b.gradient.shape() {
        return Err(format!("{}: shapes differ", what));
    }
    for (k, t) in &a.stats {
        if t.borrow().shape() != b.stats[k].borrow().shape() || !b.has_stat(k) {
            return Err(format!("{}: shape of statistic {} differs", what, k));
        }
    }
    Ok(())
}

fn train(r: &mut Parameter) {
    r.reset_gradient();
    {
        let n = Node::from(&mut *r);
        let y = &n * &n;
        y.backward();
    }
    let mut o = pu::optimizers::MomentumSGD::new(0.01, 0.9);
    if !r.has_stat("MomentumSGD.m") {
        o.configure_parameter(r);
    }
    o.update_parameters(&mut [r]);
}

fn parameter(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let mut p = fill_parameter(&mut s, &dev);
    let form = s.index(FORMS.len());
    ctx.desc(|| format!("{:?} as {} {:?}", p.shape(), FORMS[form], optim::snapshot(&p).iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
    ctx.key(optim::snapshot(&p));
    ctx.nontrivial();
    let before = optim::snapshot(&p);
    let saved = save(form, &p);
    optim::same_snapshot("parameter after saving", &optim::snapshot(&p), &before)?;
    let (dev2, st) = rec_device(true);
    {
        dirty(&dev2, 256, 3, -1e9);
        let mut q: Parameter = load(form, &saved)?;
        q.move_to_device(&dev2);
        same_parameter("loaded parameter", &p, &q)?;
        // used like the original: in a graph, by an optimizer, to save again
        let q2: Parameter = load(form, &save(form, &q))?;
        let dev3 = D::Naive::new();
        let mut q2 = q2;
        q2.move_to_device(&dev3);
        same_parameter("parameter loaded twice", &p, &q2)?;
        train(&mut p);
        train(&mut q);
        same_parameter("parameter trained after loading", &p, &q)?;
    }
    drop(dev2);
    settled(&st)
}

fn parameters_of<'a, 'd>(m: &'a Outer<'d>) -> Vec<&'a Parameter<'d>> {
    let mut v = vec![&m.first];
    for l in &m.layers {
        v.push(&l.w);
        v.push(&l.b);
    }
    v.extend(m.extra.iter());
    v.push(&m.last.w);
    v.push(&m.last.b);
    v
}

fn model(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let dev = D::Naive::new();
    let (nl, ne) = (s.below(4), s.below(4));
    let form = s.index(FORMS.len());
    let mut m = Outer {
        first: fill_parameter(&mut s, &dev),
        layers: (0..nl).map(|_| Inner { w: fill_parameter(&mut s, &dev), b: fill_parameter(&mut s, &dev) }).collect(),
        extra: (0..ne).map(|_| fill_parameter(&mut s, &dev)).collect(),
        last: Inner { w: fill_parameter(&mut s, &dev), b: fill_parameter(&mut s, &dev) },
        name: "x\u{1F680}".into(),
        epochs: s.below(1000),
    };
    ctx.desc(|| format!("{} layers, {} extra as {}", nl, ne, FORMS[form]));
    ctx.key(parameters_of(&m).iter().map(|p| optim::snapshot(p)).collect::<Vec<_>>());
    ctx.nontrivial();
    let saved = save(form, &m);
    let (dev2, st) = rec_device(true);
    {
        let mut q: Outer = load(form, &saved)?;
        if q.layers.len() != m.layers.len() || q.extra.len() != m.extra.len() || q.name != m.name || q.epochs != m.epochs {
            return Err("the structure of the model differs after loading".into());
        }
        q.move_to_device(&dev2);
        for (i, (a, b)) in parameters_of(&m).into_iter().zip(parameters_of(&q)).enumerate() {
            same_parameter(&format!("parameter {} of the loaded model", i), a, b)?;
        }
        // and both are trained on alike
        let mut o = pu::optimizers::SGD::new(0.125);
        let mut o2 = pu::optimizers::SGD::new(0.125);
        o.configure_model(&mut m);
        o2.configure_model(&mut q);
        o.update_model(&mut m);
        o2.update_model(&mut q);
        for (i, (a, b)) in parameters_of(&m).into_iter().zip(parameters_of(&q)).enumerate() {
            same_parameter(&format!("parameter {} after an update of the loaded model", i), a, b)?;
        }
    }
    drop(dev2);
    settled(&st)
}

fn main() {
    run_main(Check {
        id: "C22",
        rule: "objects with generated shapes and finite numbers of any bit pattern are written as JSON (three ways) or bincode, read back, moved to a guarded device and compared bit for bit, then used (arithmetic, graph, optimizer, saved again) next to the original. damaged: value counts and shapes that do not fit are refused. Non-trivial: more than a scalar.",
        assumptions: &["infinities only in the binary form; NaN not claimed"],
        subs: vec![
            Sub { name: "shape", head: 16, steps: (0, 0), step_len: 0, quick: 160_000, thorough: 6_400_000, run: shape },
            Sub { name: "tensor", head: 30, steps: (0, 0), step_len: 0, quick: 96_000, thorough: 3_840_000, run: tensor },
            Sub { name: "damaged", head: 24, steps: (0, 0), step_len: 0, quick: 32_000, thorough: 1_280_000, run: damaged },
            Sub { name: "parameter", head: 120, steps: (0, 0), step_len: 0, quick: 40_000, thorough: 1_600_000, run: parameter },
            Sub { name: "model", head: 500, steps: (0, 0), step_len: 0, quick: 12_000, thorough: 480_000, run: model },
        ],
    })
}
