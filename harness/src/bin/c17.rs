use harness::*;

#[derive(Clone, PartialEq, Debug)]
struct M {
    d: [u64; 8],
    b: u64,
}

impl M {
    fn vol(&self) -> u128 {
        // saturates: eight extents may exceed any integer type
        self.d.iter().fold(1u128, |a, &x| a.saturating_mul(x as u128))
    }
    fn ok(&self) -> bool {
        self.b >= 1 && self.d.iter().all(|&x| x >= 1) && self.vol().saturating_mul(self.b as u128) <= u32::MAX as u128
    }
    fn depth(&self) -> u32 {
        (0..8).rev().find(|&i| self.d[i] != 1).map(|i| i as u32 + 1).unwrap_or(0)
    }
    fn at(&self, i: u32) -> u64 {
        if i < 8 {
            self.d[i as usize]
        } else {
            1
        }
    }
}

fn extent(s: &mut Src) -> u32 {
    match s.weighted(&[6, 8, 4, 2, 1, 1]) {
        0 => 1,
        1 => s.range(2, 6),
        2 => s.range(7, 300),
        3 => *s.pick(&[65_535, 65_536, 65_537, 1 << 20, 46_341, 1625, 255, 256, 257]),
        4 => *s.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1, u32::MAX / 2, u32::MAX / 3, 3 * 5 * 17 * 257]),
        _ => 0,
    }
}

fn dims(s: &mut Src) -> Vec<u32> {
    let n = s.weighted(&[2, 4, 5, 5, 3, 2, 2, 2, 2, 1]) as usize;
    let small = s.chance(1, 3);
    (0..n).map(|_| if small { s.range(1, 4) } else { extent(s) }).collect()
}

fn batch(s: &mut Src) -> u32 {
    if s.chance(1, 3) {
        1
    } else {
        extent(s)
    }
}

fn model(d: &[u32], b: u32) -> Option<M> {
    if d.len() > 8 {
        return None;
    }
    let mut m = M { d: [1; 8], b: b as u64 };
    for (i, &x) in d.iter().enumerate() {
        m.d[i] = x as u64;
    }
    if m.ok() {
        Some(m)
    } else {
        None
    }
}

fn same(what: &str, s: &Shape, m: &M) -> Result<(), String> {
    let e = |f: &str, g: String, w: String| Err(format!("{}: {} is {}, expected {} (extents {:?}, minibatch {})", what, f, g, w, m.d, m.b));
    macro_rules! eq {
        ($f:expr, $g:expr, $w:expr) => {
            if $g != $w {
                return e($f, format!("{:?}", $g), format!("{:?}", $w));
            }
        };
    }
    eq!("depth", s.depth(), m.depth());
    let l: Vec<u64> = s.dims().iter().map(|&x| x as u64).collect();
    eq!("dims", l, m.d[..m.depth() as usize].to_vec());
    for i in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 1 << 31, u32::MAX] {
        eq!("extent by index", s[i] as u64, m.at(i));
    }
    eq!("minibatch", s.batch() as u64, m.b);
    eq!("has_batch", s.has_batch(), m.b > 1);
    eq!("volume", s.volume() as u128, m.vol());
    eq!("size", s.size() as u128, m.vol() * m.b as u128);
    for i in (0..=9u32).chain([31, 1 << 31, u32::MAX]) {
        let w: u128 = (0..i.min(8)).map(|j| m.at(j) as u128).product();
        eq!("lower volume", s.lower_volume(i) as u128, w);
    }
    eq!("is_scalar", s.is_scalar(), m.depth() == 0);
    eq!("is_column_vector", s.is_column_vector(), m.depth() <= 1);
    eq!("is_matrix", s.is_matrix(), m.depth() <= 2);
    Ok(())
}

fn relate(a: &Shape, ma: &M, b: &Shape, mb: &M) -> Result<(), String> {
    for (x, mx, y, my) in [(a, ma, b, mb), (b, mb, a, ma), (a, ma, a, ma)] {
        let e = |f: String, g: bool, w: bool| {
            if g != w {
                Err(format!("{} of {:?}/{} and {:?}/{} is {}, expected {}", f, mx.d, mx.b, my.d, my.b, g, w))
            } else {
                Ok(())
            }
        };
        e("equality".into(), x == y, mx == my)?;
        e("inequality".into(), x != y, mx != my)?;
        e("has_same_dims".into(), x.has_same_dims(*y), mx.d == my.d)?;
        e("has_compatible_batch".into(), x.has_compatible_batch(*y), mx.b == my.b || mx.b == 1 || my.b == 1)?;
        for d in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100] {
            let w = (0..8u32).all(|i| i == d || mx.at(i) == my.at(i));
            e(format!("equality up to dimension {}", d), x.has_same_loo_dims(*y, d), w)?;
        }
    }
    Ok(())
}

fn create(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (d, b) = (dims(&mut s), batch(&mut s));
    ctx.desc(|| format!("new({:?}, {})", d, b));
    let m = model(&d, b);
    let got = guarded(|| Shape::new(&d, b));
    let (x, mx) = match (got, m) {
        (Err(_), None) => {
            ctx.label("refused");
            ctx.nontrivial();
            return Ok(());
        }
        (Ok(_), None) => return Err(format!("shape {:?} with minibatch {} is accepted", d, b)),
        (Err(e), Some(_)) => return Err(format!("shape {:?} with minibatch {} is refused: {}", d, b, e)),
        (Ok(x), Some(m)) => (x, m),
    };
    ctx.nontrivial();
    same("new shape", &x, &mx)?;
    // a relative of it
    let mut d2 = d.clone();
    let mut b2 = b;
    match s.below(8) {
        0 => d2.truncate(mx.depth() as usize),
        1 => d2.resize(8, 1),
        2 if !d2.is_empty() => {
            let i = s.index(d2.len());
            d2[i] = extent(&mut s)
        }
        3 => b2 = batch(&mut s),
        4 if d2.len() >= 2 => {
            let i = s.index(d2.len() - 1);
            d2.swap(i, i + 1);
        }
        5 => {
            d2.truncate(7);
            d2.push(extent(&mut s))
        }
        6 => {
            d2 = dims(&mut s);
            b2 = batch(&mut s);
        }
        7 if !d2.is_empty() => {
            let i = s.index(d2.len());
            d2.remove(i);
        }
        _ => {}
    }
    if let Some(my) = model(&d2, b2) {
        let y = guarded(|| Shape::new(&d2, b2)).map_err(|e| format!("shape {:?} with minibatch {} is refused: {}", d2, b2, e))?;
        same("second shape", &y, &my)?;
        relate(&x, &mx, &y, &my)?;
        ctx.label(if mx == my { "equal pair" } else { "different pair" });
    }
    Ok(())
}

fn updates(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = Src::new(&case.head);
    let (d, b) = (dims(&mut s), batch(&mut s));
    let (d, b) = if model(&d, b).is_some() { (d, b) } else { (vec![2, 3], 2) };
    let mut m = model(&d, b).unwrap();
    let mut x = Shape::new(&d, b);
    let orig = x;
    let morig = m.clone();
    ctx.desc(|| format!("{:?} x{}", d, b));
    let mut done = 0;
    for w in &case.steps {
        let mut s = Src::new(w);
        let mut n = m.clone();
        let in_place = s.bool();
        let prev = x;
        let r = match s.below(3) {
            0 => {
                let v = batch(&mut s);
                n.b = v as u64;
                ctx.desc(|| format!("batch {}", v));
                guarded(|| {
                    if in_place {
                        let mut y = x;
                        y.update_batch(v);
                        y
                    } else {
                        x.resize_batch(v)
                    }
                })
            }
            _ => {
                let dim = if s.chance(1, 12) { *s.pick(&[8u32, 9, 100, u32::MAX]) } else { s.below(8) };
                let v = if s.chance(1, 4) { 1 } else { extent(&mut s) };
                if dim < 8 {
                    n.d[dim as usize] = v as u64;
                } else {
                    n.b = 0; // refused
                }
                ctx.desc(|| format!("dim {} {}", dim, v));
                guarded(|| {
                    if in_place {
                        let mut y = x;
                        y.update_dim(dim, v);
                        y
                    } else {
                        x.resize_dim(dim, v)
                    }
                })
            }
        };
        match (r, n.ok()) {
            (Ok(y), true) => {
                x = y;
                m = n;
                done += 1;
            }
            (Err(_), false) => ctx.label("refused"),
            (Ok(_), false) => return Err(format!("update of {:?} x{} to {:?} x{} is accepted", m.d, m.b, n.d, n.b)),
            (Err(e), true) => return Err(format!("update of {:?} x{} to {:?} x{} is refused: {}", m.d, m.b, n.d, n.b, e)),
        }
        same("updated shape", &x, &m)?;
        relate(&x, &m, &prev, &M { ..model_of(&prev) })?;
        let list: Vec<u32> = m.d.iter().map(|&v| v as u32).collect();
        if x != Shape::new(&list, m.b as u32) {
            return Err(format!("updated shape differs from the new shape {:?} x{}", m.d, m.b));
        }
    }
    relate(&x, &m, &orig, &morig)?;
    if done >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn model_of(s: &Shape) -> M {
    let mut d = [1u64; 8];
    for i in 0..8 {
        d[i] = s[i as u32] as u64;
    }
    M { d, b: s.batch() as u64 }
}

fn main() {
    run_main(Check {
        id: "C17",
        rule: "create: extents and minibatch up to 2^32-1, often near the limit, zero, or with too many dimensions: accepted exactly when everything is positive, at most eight dimensions and the element count fits 32 bits (decided in 128-bit arithmetic); every accessor against the model, and all relations with a related second shape; every case counts. updates: histories of dimension and minibatch updates, in place or copied, also refused ones; non-trivial with two accepted updates.",
        assumptions: &["equality up to a dimension is asked for dimension indices below 2^32-1"],
        subs: vec![
            Sub { name: "create", head: 40, steps: (0, 0), step_len: 0, quick: 2_400_000, thorough: 96_000_000, run: create },
            Sub { name: "updates", head: 24, steps: (1, 16), step_len: 6, quick: 800_000, thorough: 32_000_000, run: updates },
        ],
    })
}
