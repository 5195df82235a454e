use harness::*;
use serde::Serialize;
use std::collections::HashMap;
use std::marker::PhantomData;

/// numbers the parameters and bounds their number
pub struct Maker {
    made: u32,
    budget: u32,
}

impl Maker {
    fn parameter<'d>(&mut self, s: &mut Src) -> Parameter<'d> {
        self.made += 1;
        let n = s.range(1, 3);
        let sh = Shape::new(&[n], 1);
        let v: Vec<f32> = (0..n).map(|i| (self.made * 8 + i) as f32).collect();
        let g: Vec<f32> = (0..n).map(|i| (self.made * 4 + i) as f32).collect();
        Parameter::new(Tensor::new_host_tensor(sh, v), Tensor::new_host_tensor(sh, g))
    }
    fn len(&self, s: &mut Src, depth: u32) -> u32 {
        if self.made >= self.budget {
            return 0;
        }
        s.below(if depth > 3 { 2 } else { 4 })
    }
}

pub trait Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self;
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool));
}

impl<'d> Gen<'d> for Parameter<'d> {
    fn make(s: &mut Src, m: &mut Maker, _: u32) -> Self {
        m.parameter(s)
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        f(self, skipped)
    }
}
impl<'d, T: Gen<'d>> Gen<'d> for Vec<T> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        (0..m.len(s, depth)).map(|_| T::make(s, m, depth + 1)).collect()
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        for x in self {
            x.visit(skipped, f)
        }
    }
}
impl<'d, T: Gen<'d>> Gen<'d> for Option<T> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        if s.bool() {
            Some(T::make(s, m, depth + 1))
        } else {
            None
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        if let Some(x) = self {
            x.visit(skipped, f)
        }
    }
}
impl<'d, T: Gen<'d>> Gen<'d> for HashMap<String, T> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        (0..s.below(3)).map(|i| (format!("k{}", i), T::make(s, m, depth + 1))).collect()
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        for x in self.values() {
            x.visit(skipped, f)
        }
    }
}
impl<'d, T: Gen<'d>> Gen<'d> for Box<T> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        Box::new(T::make(s, m, depth + 1))
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        (**self).visit(skipped, f)
    }
}
macro_rules! plain {
    ($($t:ty, $e:expr);*) => {$(
        impl<'d> Gen<'d> for $t {
            fn make(s: &mut Src, _: &mut Maker, _: u32) -> Self {
                let _ = &s;
                #[allow(clippy::redundant_closure_call)]
                ($e)(s)
            }
            fn visit<'a>(&'a self, _: bool, _: &mut dyn FnMut(&'a Parameter<'d>, bool)) {}
        }
    )*};
}
plain!(String, |_: &mut Src| "text".to_string(); u32, |s: &mut Src| s.word(); f32, |_: &mut Src| 1.5);
impl<'d, 's> Gen<'d> for &'s str {
    fn make(_: &mut Src, _: &mut Maker, _: u32) -> Self {
        "name"
    }
    fn visit<'a>(&'a self, _: bool, _: &mut dyn FnMut(&'a Parameter<'d>, bool)) {}
}
impl<'d, T: ?Sized> Gen<'d> for PhantomData<T> {
    fn make(_: &mut Src, _: &mut Maker, _: u32) -> Self {
        PhantomData
    }
    fn visit<'a>(&'a self, _: bool, _: &mut dyn FnMut(&'a Parameter<'d>, bool)) {}
}
impl<'d, const N: usize> Gen<'d> for [u32; N] {
    fn make(s: &mut Src, _: &mut Maker, _: u32) -> Self {
        [s.word(); N]
    }
    fn visit<'a>(&'a self, _: bool, _: &mut dyn FnMut(&'a Parameter<'d>, bool)) {}
}

type Runner = fn(&mut Src, &'static Device<'static>, &mut Ctx) -> Result<(), String>;

fn addresses<'a, 'd: 'a>(v: impl Iterator<Item = &'a Parameter<'d>>) -> Vec<usize> {
    let mut v: Vec<usize> = v.map(|p| p as *const Parameter as usize).collect();
    v.sort();
    v
}

fn moved(p: &Parameter) -> bool {
    p.value.valid() && p.gradient.valid()
}

/// everything a model of this type is asked to do
fn probe<T: Gen<'static> + Model<'static>>(s: &mut Src, dev: &'static Device<'static>, ctx: &mut Ctx) -> Result<(), String> {
    let mut m = Maker { made: 0, budget: s.range(1, 60) };
    // the model itself, or a list of models
    let list = s.chance(1, 5);
    let mut models: Vec<T> = if list { Gen::make(s, &mut m, 0) } else { vec![T::make(s, &mut m, 0)] };
    let mut inside = 0;
    let mut outside = 0;
    models.visit(false, &mut |_, sk| if sk { outside += 1 } else { inside += 1 });
    ctx.desc(|| format!("{} models, {} parameters, {} skipped", models.len(), inside, outside));
    ctx.key(m.made);
    if inside + outside >= 2 {
        ctx.nontrivial();
    }
    let mut want: Vec<usize> = vec![];
    models.visit(false, &mut |p, sk| {
        if !sk {
            want.push(p as *const Parameter as usize)
        }
    });
    want.sort();
    let listed = |models: &mut Vec<T>| -> (Vec<usize>, Vec<usize>) {
        if list {
            let a = addresses(models.parameters().into_iter());
            let b = addresses(models.parameters_mut().into_iter().map(|p| &*p));
            (a, b)
        } else {
            let a = addresses(models[0].parameters().into_iter());
            let b = addresses(models[0].parameters_mut().into_iter().map(|p| &*p));
            (a, b)
        }
    };
    let (a, b) = listed(&mut models);
    for (what, got) in [("parameters", a), ("parameters_mut", b)] {
        if got != want {
            let dup = got.windows(2).any(|w| w[0] == w[1]);
            return Err(format!(
                "{} lists {} parameters{}, the fields hold {}",
                what,
                got.len(),
                if dup { " (some twice)" } else { "" },
                want.len()
            ));
        }
    }
    if list {
        models.move_to_device(dev)
    } else {
        models[0].move_to_device(dev)
    }
    let mut err = None;
    let mut bad = |e: String| {
        err.get_or_insert(e);
    };
    // contents: the first value tells which parameter it is
    let mut seen = std::collections::HashSet::new();
    models.visit(false, &mut |p, sk| {
        if sk {
            if p.value.valid() || p.gradient.valid() {
                bad("a skipped parameter was moved to the device".into());
            }
            return;
        }
        if !moved(p) {
            return bad("a parameter was not moved to the device".into());
        }
        let v = p.value.to_vec();
        let id = v[0] as u32 / 8;
        if v.iter().enumerate().any(|(i, &x)| x != (id * 8 + i as u32) as f32) || p.gradient.to_vec().iter().enumerate().any(|(i, &x)| x != (id * 4 + i as u32) as f32) {
            bad(format!("a parameter holds {:?} / {:?} after moving", v, p.gradient.to_vec()));
        }
        if !seen.insert(id) {
            bad("two parameters hold the same values after moving".into());
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    // an optimizer sees exactly them
    let mut o = pu::optimizers::MomentumSGD::new(0.5, 0.5);
    if list {
        o.configure_model(&mut models);
        o.update_model(&mut models);
    } else {
        o.configure_model(&mut models[0]);
        o.update_model(&mut models[0]);
    }
    let mut err = None;
    let mut bad = |e: String| {
        err.get_or_insert(e);
    };
    models.visit(false, &mut |p, sk| {
        if sk {
            if !p.stats.is_empty() || p.value.valid() {
                bad("a skipped parameter was registered with the optimizer".into());
            }
            return;
        }
        if p.stats.len() != 1 {
            return bad(format!("{} statistics after registration with momentum SGD", p.stats.len()));
        }
        // value 8k+i, gradient 4k+i: one step of 0.5
        let v = p.value.to_vec();
        let id = {
            // 8k - 2k = 6k for the first element
            v[0] / 6.0
        };
        if v.iter().enumerate().any(|(i, &x)| x != 6.0 * id + 0.5 * i as f32) || p.gradient.to_vec().iter().any(|&g| g != 0.0) {
            bad(format!("a parameter holds {:?} / {:?} after one update", v, p.gradient.to_vec()));
        }
        if !seen.remove(&(id as u32)) {
            bad("a parameter was updated other than once".into());
        }
    });
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

type Alias<'d> = Parameter<'d>;

include!("../models_gen.rs");

fn run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (name, f) = TABLE[s.index(TABLE.len())];
    ctx.desc(|| format!("struct {} of harness/src/models_gen.rs", name));
    let (dev, st) = rec_device(false);
    // SAFETY: everything on the device is dropped inside
    let d: &'static Device<'static> = unsafe { &*(&dev as *const Device<'static>) };
    f(&mut s, d, ctx)?;
    drop(dev);
    settled(&st)
}

fn main() {
    run_main(Check {
        id: "C24",
        rule: "170 structs drawn from a grammar of what the derive accepts (lifetimes, type and const parameters, where clauses, attributes of this derive and of others (documentation, lints, serde's skip and rename), visibilities, raw names; fields that are parameters, models, boxes and vectors of either, nested vectors, aliases, skipped fields of these and other types), filled with generated numbers of parameters; what the model lists, moves to the device, registers and updates is compared by identity and content with a walk over the fields. Non-trivial: two parameters.",
        assumptions: &["the struct definitions are compiled in; the generator's seed is fixed"],
        subs: vec![Sub { name: "derive", head: 120, steps: (0, 0), step_len: 0, quick: 144_000, thorough: 5_760_000, run }],
    })
}
