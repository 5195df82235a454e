//! Statistical oracles: every bound is missed by chance with probability below 1e-16.
use crate::*;

#[derive(Clone, Copy, Debug)]
pub enum Dist {
    Bern(f32),
    Unif(f32, f32),
    Norm(f32, f32),
    LogNorm(f32, f32),
    Const(f32),
}

pub fn phi(z: f64) -> f64 {
    0.5 * erfc(-z / std::f64::consts::SQRT_2)
}

/// complementary error function, relative error below 1.2e-7
pub fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let r = t * (-z * z - 1.26551223
        + t * (1.00002368 + t * (0.37409196 + t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))))
        .exp();
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}

impl Dist {
    pub fn constant(&self) -> Option<f32> {
        match *self {
            Dist::Bern(p) if p == 0.0 => Some(0.0),
            Dist::Bern(p) if p == 1.0 => Some(1.0),
            Dist::Norm(m, s) if s == 0.0 => Some(m),
            Dist::Const(k) => Some(k),
            _ => None,
        }
    }
    pub fn continuous(&self) -> bool {
        self.constant().is_none() && !matches!(self, Dist::Bern(_))
    }
    pub fn cdf(&self, x: f64) -> f64 {
        match *self {
            Dist::Unif(l, u) => ((x - l as f64) / (u as f64 - l as f64)).clamp(0.0, 1.0),
            Dist::Norm(m, s) => phi((x - m as f64) / s as f64),
            Dist::LogNorm(m, s) => phi((x.ln() - m as f64) / s as f64),
            _ => unreachable!(),
        }
    }
    /// probability mass a rounded value may stand for
    pub fn grain(&self) -> f64 {
        match *self {
            Dist::Unif(l, u) => 4.0 * 1.2e-7 * (l.abs().max(u.abs()) as f64) / (u as f64 - l as f64) + 1e-6,
            Dist::Norm(m, s) => 4.0 * 1.2e-7 * (m.abs() as f64 + 10.0 * s as f64) / s as f64 + 1e-6,
            Dist::LogNorm(m, s) => 4.0 * 1.2e-7 * (m.abs() as f64 + 10.0 * s as f64) / s as f64 + 1e-5,
            _ => 1e-5,
        }
    }
    pub fn inside(&self, x: f32) -> bool {
        match *self {
            Dist::Bern(_) => x == 0.0 || x == 1.0,
            Dist::Unif(l, u) => x >= l && x <= u,
            // further out than ten standard deviations is as good as impossible
            Dist::Norm(m, s) => (x as f64 - m as f64).abs() <= 11.0 * s as f64 + 2e-7 * m.abs() as f64,
            Dist::LogNorm(m, s) => x > 0.0 && ((x as f64).ln() - m as f64).abs() <= 11.0 * s as f64 + 1e-5,
            Dist::Const(k) => x.to_bits() == k.to_bits(),
        }
    }
    /// a number roughly standardised, to look for dependence
    pub fn z(&self, x: f32) -> f64 {
        match *self {
            Dist::Bern(p) => (x as f64 - p as f64) / ((p as f64) * (1.0 - p as f64)).sqrt(),
            _ => (self.cdf(x as f64) - 0.5) * 12f64.sqrt(),
        }
    }
}

/// the pooled sample has the distribution (each bound is missed with probability below 1e-16)
pub fn fits(d: Dist, xs: &[f32]) -> Result<(), String> {
    let n = xs.len() as f64;
    if let Dist::Bern(p) = d {
        let k = xs.iter().filter(|&&x| x == 1.0).count() as f64;
        let (p, l) = (p as f64, 40.0);
        let t = (2.0 * n * p * (1.0 - p) * l).sqrt() + 2.0 / 3.0 * l;
        if (k - n * p).abs() > t {
            return Err(format!("{} ones among {} draws with probability {} (allowed {:.0} +- {:.0})", k, n, p, n * p, t));
        }
        return Ok(());
    }
    let mut v: Vec<f64> = xs.iter().map(|&x| x as f64).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut worst = 0.0f64;
    let mut at = 0.0;
    for (i, &x) in v.iter().enumerate() {
        let f = d.cdf(x);
        let e = (f - i as f64 / n).abs().max((f - (i + 1) as f64 / n).abs());
        if e > worst {
            worst = e;
            at = x;
        }
    }
    // Dvoretzky-Kiefer-Wolfowitz: 2 exp(-2 n e^2), here exp(-40)
    if worst > (20.5 / n).sqrt() + d.grain() {
        return Err(format!("{} draws do not follow {:?}: at {} the distribution function is off by {:.4}", n, d, at, worst));
    }
    // the ends are reached
    if let Dist::Unif(l, u) = d {
        if n > 2000.0 {
            let w = (u as f64 - l as f64) * (40.0 / n);
            if v[0] > l as f64 + w || v[v.len() - 1] < u as f64 - w {
                return Err(format!("{} draws of {:?} only span [{}, {}]", n, d, v[0], v[v.len() - 1]));
            }
        }
    }
    Ok(())
}

/// continuous numbers are as fine as 32 bits allow: not more coincidences than that grid explains
pub fn fine(d: Dist, xs: &[f32]) -> Result<(), String> {
    let n = xs.len() as f64;
    let ulp = |x: f64| (x.abs().max(1e-30)) * 1.2e-7;
    let cells = match d {
        Dist::Unif(l, u) => ((u as f64 - l as f64) / ulp(l.abs().max(u.abs()) as f64)).min((1u64 << 23) as f64),
        Dist::Norm(m, s) => (s as f64 / ulp(m.abs() as f64 + s as f64)).min((1u64 << 22) as f64),
        _ => return Ok(()),
    };
    let mut v: Vec<u32> = xs.iter().map(|x| x.to_bits()).collect();
    v.sort();
    v.dedup();
    let repeats = n - v.len() as f64;
    let allowed = 4.0 * n * n / (2.0 * cells) + 60.0;
    if repeats > allowed {
        return Err(format!("{} draws of {:?} hold only {} different numbers", n, d, v.len()));
    }
    Ok(())
}

/// products of standardised numbers at a distance average to zero
pub fn unrelated(what: &str, d: Dist, a: &[f32], b: &[f32]) -> Result<(), String> {
    let n = a.len().min(b.len());
    if n < 50 {
        return Ok(());
    }
    if d.continuous() {
        // equal numbers at the same places do not happen
        let eq = a.iter().zip(b).filter(|(x, y)| x == y).count();
        if eq > 3 + (n as f64 * 40.0 * d.grain()) as usize && eq * 5 > n.min(1000) {
            return Err(format!("{}: {} of {} numbers repeat", what, eq, n));
        }
        let c: f64 = a.iter().zip(b).map(|(&x, &y)| d.z(x) * d.z(y)).sum::<f64>();
        // |z| <= 1.74 each: Hoeffding, exp(-40)
        if c.abs() > 3.0 * (2.0 * 40.0 * n as f64).sqrt() {
            return Err(format!("{}: correlation {:.3} over {} numbers", what, c / n as f64, n));
        }
    } else if let Dist::Bern(p) = d {
        if !(0.05..=0.95).contains(&p) {
            return Ok(());
        }
        let p = p as f64;
        let both = a.iter().zip(b).filter(|(&x, &y)| x == y).count() as f64;
        let q = p * p + (1.0 - p) * (1.0 - p);
        // dependence between overlapping pairs at most doubles the spread
        let t = 2.0 * ((2.0 * n as f64 * q * (1.0 - q) * 40.0).sqrt() + 27.0);
        if (both - n as f64 * q).abs() > t {
            return Err(format!("{}: {} of {} coins agree, expected {:.0} +- {:.0}", what, both, n, n as f64 * q, t));
        }
    }
    Ok(())
}

pub fn judge(d: Dist, sh: &Sh, draws: &[Vec<f32>]) -> Result<(), String> {
    for (r, v) in draws.iter().enumerate() {
        if v.len() != sh.size() {
            return Err(format!("{} elements, expected {}", v.len(), sh.size()));
        }
        if let Some((i, x)) = v.iter().enumerate().find(|(_, &x)| !d.inside(x)) {
            return Err(format!("draw {}: element {} is {:?}, which is outside {:?}", r, i, x, d));
        }
        if let Some(k) = d.constant() {
            if v.iter().any(|&x| x != k) {
                return Err(format!("draw {} of {:?} holds something else", r, d));
            }
        }
    }
    if d.constant().is_some() {
        return Ok(());
    }
    let all: Vec<f32> = draws.iter().flatten().copied().collect();
    if all.len() >= 20 {
        fits(d, &all)?;
    }
    // every place has the distribution, if it was drawn often
    let n = sh.size();
    if draws.len() >= 60 {
        for i in [0, n / 2, n - 1] {
            let v: Vec<f32> = draws.iter().map(|d| d[i]).collect();
            fits(d, &v).map_err(|e| format!("at element {}: {}", i, e))?;
        }
    }
    if d.continuous() && draws.len() >= 4 && d.grain() < 1e-3 {
        for i in 0..n {
            if draws.iter().all(|v| v[i] == draws[0][i]) {
                return Err(format!("element {} is {:?} in all {} draws", i, draws[0][i], draws.len()));
            }
        }
    }
    // neighbours, samples, halves, calls
    unrelated("neighbours", d, &all, &all[1..])?;
    let vol = sh.volume();
    if sh.batch > 1 {
        unrelated("samples of the minibatch", d, &all, &all[vol..])?;
    }
    for lag in [2, sh.d(0) as usize, n.div_ceil(2), n] {
        if lag > 0 && lag < all.len() {
            unrelated(&format!("numbers {} apart", lag), d, &all, &all[lag..])?;
        }
    }
    Ok(())
}

