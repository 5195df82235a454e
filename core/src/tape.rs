//! Scalar reverse-mode tape in f64 with running error bounds.
//!
//! Every scalar carries its exact-ish f64 value `v` and a bound `e` on how far a reasonable f32
//! evaluation of the same mathematical expression may be off. Every edge carries the local partial
//! derivative `p` and a bound `pe` on the f32 error of that partial. `gradients` then sweeps the
//! tape backwards and yields, for every scalar, the adjoint and a bound on its f32 error. When all
//! numbers involved are small integers, the bounds are 0 and comparisons become exact.

pub const U: f64 = 1.2e-7; // ~2^-23
const INT_LIM: f64 = 16_777_216.0;

#[derive(Clone, Copy)]
struct Edge {
    to: u32,
    p: f64,
    pe: f64,
}

#[derive(Default)]
pub struct Tape {
    pub v: Vec<f64>,
    pub e: Vec<f64>,
    start: Vec<u32>,
    edges: Vec<Edge>,
    /// set when a value left the domain in which the error analysis is meaningful
    pub bad: Option<&'static str>,
    /// set when an operation was evaluated exactly at a point without a derivative
    pub nondiff: Option<&'static str>,
}

pub struct Grad {
    pub g: Vec<f64>,
    pub e: Vec<f64>,
}

fn is_int(x: f64) -> bool {
    x.fract() == 0.0 && x.abs() < INT_LIM
}

impl Tape {
    pub fn new() -> Tape {
        Tape::default()
    }

    pub fn len(&self) -> usize {
        self.v.len()
    }

    /// forgets everything pushed after the tape had length n
    pub fn truncate(&mut self, n: usize) {
        if n < self.start.len() {
            self.edges.truncate(self.start[n] as usize);
        }
        self.start.truncate(n);
        self.v.truncate(n);
        self.e.truncate(n);
        self.bad = None;
        self.nondiff = None;
    }

    pub fn leaf(&mut self, x: f32) -> u32 {
        self.push(x as f64, 0.0, &[])
    }

    pub fn val(&self, i: u32) -> f64 {
        self.v[i as usize]
    }

    pub fn err(&self, i: u32) -> f64 {
        self.e[i as usize]
    }

    fn push(&mut self, v: f64, e: f64, edges: &[Edge]) -> u32 {
        if !(v.abs() < 1e37) {
            self.bad = self.bad.or(Some("magnitude"));
        }
        if !(e.is_finite()) || e > 1e-2 * (1.0 + v.abs()) {
            self.bad = self.bad.or(Some("ill-conditioned"));
        }
        let id = self.v.len() as u32;
        self.v.push(v);
        self.e.push(e);
        self.start.push(self.edges.len() as u32);
        self.edges.extend_from_slice(edges);
        id
    }

    /// smooth unary function: value, f', |f''| bound, extra absolute error of value and of f'
    pub fn unary(&mut self, a: u32, v: f64, p: f64, p2: f64, abs_v: f64, abs_p: f64) -> u32 {
        let ea = self.err(a);
        let e = p.abs() * ea * 1.5 + p2.abs() * ea * ea + abs_v;
        let pe = p2.abs() * ea * 1.5 + abs_p;
        self.push(v, e, &[Edge { to: a, p, pe }])
    }

    /// exact identity-like selection of a single operand times a constant +-1
    pub fn copy(&mut self, a: u32) -> u32 {
        let (v, e) = (self.val(a), self.err(a));
        self.push(v, e, &[Edge { to: a, p: 1.0, pe: 0.0 }])
    }

    pub fn constant(&mut self, v: f64) -> u32 {
        self.push(v, 0.0, &[])
    }

    pub fn neg(&mut self, a: u32) -> u32 {
        let (v, e) = (self.val(a), self.err(a));
        self.push(-v, e, &[Edge { to: a, p: -1.0, pe: 0.0 }])
    }

    fn round(&self, v: f64, e: f64) -> f64 {
        if e == 0.0 && (v as f32) as f64 == v {
            0.0
        } else {
            e + U * v.abs() + 1e-44
        }
    }

    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        self.lin2(a, 1.0, b, 1.0)
    }

    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        self.lin2(a, 1.0, b, -1.0)
    }

    fn lin2(&mut self, a: u32, ca: f64, b: u32, cb: f64) -> u32 {
        let v = ca * self.val(a) + cb * self.val(b);
        let e = self.round(v, self.err(a) + self.err(b));
        self.push(
            v,
            e,
            &[
                Edge { to: a, p: ca, pe: 0.0 },
                Edge { to: b, p: cb, pe: 0.0 },
            ],
        )
    }

    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        let (x, y, ex, ey) = (self.val(a), self.val(b), self.err(a), self.err(b));
        let v = x * y;
        let e = self.round(v, x.abs() * ey + y.abs() * ex + ex * ey);
        self.push(
            v,
            e,
            &[
                Edge { to: a, p: y, pe: ey },
                Edge { to: b, p: x, pe: ex },
            ],
        )
    }

    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        let (x, y, ex, ey) = (self.val(a), self.val(b), self.err(a), self.err(b));
        if y == 0.0 || ey > 0.01 * y.abs() {
            self.bad = self.bad.or(Some("division near zero"));
        }
        let v = x / y;
        let e = self.round(v, 1.1 * (ex + v.abs() * ey) / y.abs());
        let pa = 1.0 / y;
        let pb = -v / y;
        let pae = 1.2 * ey / (y * y) + 2.0 * U * pa.abs() + 1e-44;
        let pbe = 1.2 * (2.0 * v.abs() * ey + ex) / (y * y) + 3.0 * U * pb.abs() + 1e-44 * (1.0 + 1.0 / y.abs() + 1.0 / (y * y));
        self.push(
            v,
            e,
            &[
                Edge { to: a, p: pa, pe: pae },
                Edge { to: b, p: pb, pe: pbe },
            ],
        )
    }

    /// x^y for x > 0, for exact zeros and non-negative exact y, and for negative x and exact whole y
    pub fn pow(&mut self, a: u32, b: u32) -> u32 {
        let (x, y, ex, ey) = (self.val(a), self.val(b), self.err(a), self.err(b));
        if x == 0.0 && ex == 0.0 && ey == 0.0 && y >= 0.0 {
            // 0^y: constant for y > 0; at y = 0 there is no derivative by the exponent, and for
            // 0 < y < 1 none by the base
            if y > 0.0 && y < 1.0 {
                self.nondiff = self.nondiff.or(Some("zero base"));
            }
            let v = if y == 0.0 { 1.0 } else { 0.0 };
            let p = if y == 1.0 { 1.0 } else { 0.0 };
            return self.push(v, 0.0, &[Edge { to: a, p, pe: 0.0 }]);
        }
        if x < 0.0 && ey == 0.0 && y == y.trunc() && y.abs() < 64.0 {
            // no derivative by the exponent
            return self.powi(a, y as i32);
        }
        if !(x > 0.0) || ex > 0.01 * x {
            self.bad = self.bad.or(Some("pow base"));
        }
        let v = x.powf(y);
        let l = x.ln();
        let rel = 1.2 * (y.abs() * ex / x + l.abs() * ey);
        if !(rel < 0.01) {
            self.bad = self.bad.or(Some("pow conditioning"));
        }
        // f32 powf: a few ulps
        let e = v * rel + 4.0 * U * v.abs() + 1e-44;
        let pa = y * v / x;
        let pae = pa.abs() * (rel + 1.2 * ex / x + 8.0 * U) + v / x * ey + 1e-44 * (1.0 + (1.0 + y.abs()) / x);
        let pb = v * l;
        let pbe = v * l.abs() * (rel + 8.0 * U) + v * 1.2 * ex / x + 1e-44 * (1.0 + l.abs());
        self.push(
            v,
            e,
            &[
                Edge { to: a, p: pa, pe: pae },
                Edge { to: b, p: pb, pe: pbe },
            ],
        )
    }

    /// sum of scalars
    pub fn sum(&mut self, xs: &[u32]) -> u32 {
        let mut v = 0.0;
        let mut e = 0.0;
        let mut m = 0.0;
        let mut int = true;
        for &i in xs {
            let x = self.val(i);
            v += x;
            e += self.err(i);
            m += x.abs();
            int &= is_int(x);
        }
        if !(e == 0.0 && int && m < INT_LIM) && xs.len() > 1 {
            e += U * m * (xs.len() as f64) + 1e-44 + 1.5e-45 * xs.len() as f64;
        }
        let edges: Vec<Edge> = xs.iter().map(|&to| Edge { to, p: 1.0, pe: 0.0 }).collect();
        self.push(v, e, &edges)
    }

    pub fn dot(&mut self, xs: &[u32], ys: &[u32]) -> u32 {
        let mut v = 0.0;
        let mut e = 0.0;
        let mut m = 0.0;
        let mut int = true;
        let mut edges = Vec::with_capacity(xs.len() * 2);
        for (&a, &b) in xs.iter().zip(ys) {
            let (x, y, ex, ey) = (self.val(a), self.val(b), self.err(a), self.err(b));
            v += x * y;
            e += x.abs() * ey + y.abs() * ex + ex * ey;
            m += (x * y).abs();
            int &= is_int(x) && is_int(y);
            edges.push(Edge { to: a, p: y, pe: ey });
            edges.push(Edge { to: b, p: x, pe: ex });
        }
        if !(e == 0.0 && int && m < INT_LIM) {
            e += U * m * (xs.len() as f64 + 1.0) + 1e-44 + 1.5e-45 * xs.len() as f64;
        }
        self.push(v, e, &edges)
    }

    pub fn logsumexp(&mut self, xs: &[u32]) -> u32 {
        let mx = xs.iter().map(|&i| self.val(i)).fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = xs.iter().map(|&i| (self.val(i) - mx).exp()).sum();
        let v = mx + s.ln();
        let mut e = 0.0;
        let mut edges = Vec::with_capacity(xs.len());
        let mut emax: f64 = 0.0;
        for &i in xs {
            let p = (self.val(i) - v).exp();
            e += p * self.err(i);
            emax = emax.max(self.err(i));
            edges.push(Edge { to: i, p, pe: 0.0 });
        }
        e = 1.2 * e + if xs.len() > 1 { 4.0 * U * v.abs() + U * (xs.len() as f64 + 4.0) } else { 0.0 };
        for ed in edges.iter_mut() {
            let x = self.v[ed.to as usize];
            ed.pe = ed.p * (2.0 * (e + emax) + U * (x.abs() + v.abs()) + 6.0 * U) + 1e-44;
        }
        self.push(v, e, &edges)
    }

    // ---- named unary functions -------------------------------------------------------------

    pub fn sqrt(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        if self.err(a) > 0.01 * x.abs() {
            self.bad = self.bad.or(Some("sqrt near zero"));
        }
        let v = x.sqrt();
        let p = 0.5 / v;
        let extra = if self.err(a) == 0.0 && (v as f32) as f64 == v { 0.0 } else { U * v };
        self.unary(a, v, p, 0.25 / (x * v), extra, 4.0 * U * p)
    }

    fn kink(&mut self, a: u32, at: f64) {
        if (self.val(a) - at).abs() <= 4.0 * self.err(a) {
            self.bad = self.bad.or(Some("kink"));
        }
    }

    pub fn abs(&mut self, a: u32) -> u32 {
        self.kink_if_inexact(a);
        let x = self.val(a);
        let p = if x > 0.0 {
            1.0
        } else if x < 0.0 {
            -1.0
        } else {
            0.0
        };
        self.unary(a, x.abs(), p, 0.0, 0.0, 0.0)
    }

    fn kink_if_inexact(&mut self, a: u32) {
        if self.err(a) > 0.0 {
            self.kink(a, 0.0);
        } else if self.val(a) == 0.0 {
            self.nondiff = self.nondiff.or(Some("kink"));
        }
    }

    pub fn sin(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        let (s, c) = (x.sin(), x.cos());
        self.unary(a, s, c, 1.0, U, 2.0 * U)
    }

    pub fn cos(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        let (s, c) = (x.sin(), x.cos());
        self.unary(a, c, -s, 1.0, U, 2.0 * U)
    }

    pub fn tan(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        let t = x.tan();
        let p = 1.0 + t * t;
        if self.err(a) * p > 0.01 * (1.0 + t.abs()) {
            self.bad = self.bad.or(Some("tan pole"));
        }
        self.unary(a, t, p, 2.0 * t.abs() * p, 4.0 * U * t.abs() + U * 1e-3, 12.0 * U * p)
    }

    pub fn exp(&mut self, a: u32) -> u32 {
        let v = self.val(a).exp();
        self.unary(a, v, v, v, 4.0 * U * v + 1e-44, 4.0 * U * v + 1e-44)
    }

    pub fn ln(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        if self.err(a) > 0.01 * x.abs() {
            self.bad = self.bad.or(Some("ln near zero"));
        }
        let v = x.ln();
        self.unary(a, v, 1.0 / x, 1.0 / (x * x), 4.0 * U * v.abs(), 2.0 * U / x.abs())
    }

    pub fn tanh(&mut self, a: u32) -> u32 {
        let v = self.val(a).tanh();
        let p = 1.0 - v * v;
        self.unary(a, v, p, 2.0 * v.abs() * p, 4.0 * U * v.abs(), 6.0 * U)
    }

    pub fn sigmoid(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        let v = if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) };
        let p = v * (1.0 - v);
        self.unary(a, v, p, p, 2.0 * U, 4.0 * U)
    }

    pub fn softplus(&mut self, a: u32) -> u32 {
        let x = self.val(a);
        let v = x.max(0.0) + (-x.abs()).exp().ln_1p();
        let s = if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) };
        self.unary(a, v, s, 0.25, 3.0 * U + 2.0 * U * v.abs(), 3.0 * U)
    }

    pub fn prelu(&mut self, a: u32, k: f32) -> u32 {
        self.kink_if_inexact(a);
        let k = k as f64;
        let x = self.val(a);
        let (v, p) = if x > 0.0 { (x, 1.0) } else { (x * k, k) };
        let extra = self.round(v, 0.0);
        self.unary(a, v, p, 0.0, extra, 0.0)
    }

    pub fn elu(&mut self, a: u32, k: f32) -> u32 {
        self.kink_if_inexact(a);
        let k = k as f64;
        let x = self.val(a);
        if x > 0.0 {
            self.copy(a)
        } else {
            let v = k * x.exp_m1();
            let p = k * x.exp();
            self.unary(a, v, p, p, 3.0 * U * k.abs(), 4.0 * U * k.abs())
        }
    }

    pub fn powi(&mut self, a: u32, n: i32) -> u32 {
        let x = self.val(a);
        let ea = self.err(a);
        let v = x.powi(n);
        let p = if n == 0 { 0.0 } else { n as f64 * x.powi(n - 1) };
        let p2 = if n == 0 || n == 1 { 0.0 } else { (n as f64) * (n as f64 - 1.0) * x.powi(n - 2) };
        if ea * (n.abs() as f64) > 0.01 * x.abs() && ea > 0.0 {
            self.bad = self.bad.or(Some("powi conditioning"));
        }
        let nn = n.unsigned_abs() as f64 + 4.0;
        let exact_v = ea == 0.0 && n >= 0 && is_int(x) && is_int(v);
        let exact_p = ea == 0.0 && n >= 1 && is_int(x) && is_int(p);
        self.unary(
            a,
            v,
            p,
            p2,
            if exact_v { 0.0 } else { nn * U * v.abs() + 1e-44 },
            if exact_p { 0.0 } else { nn * U * p.abs() + 1e-44 },
        )
    }

    /// selection of the maximum (or minimum); distance to the runner-up must exceed the error
    pub fn select(&mut self, xs: &[u32], max: bool) -> u32 {
        let mut best = xs[0];
        for &i in &xs[1..] {
            let better = if max { self.val(i) > self.val(best) } else { self.val(i) < self.val(best) };
            if better {
                best = i;
            }
        }
        let bv = self.val(best);
        let be = self.err(best);
        for &i in xs {
            let d = (self.val(i) - bv).abs();
            let e = be + self.err(i);
            if i != best && e > 0.0 && d <= 4.0 * e {
                self.bad = self.bad.or(Some("near tie"));
            }
            if i != best && d == 0.0 {
                self.nondiff = self.nondiff.or(Some("tie"));
            }
        }
        self.copy(best)
    }

    // ---- gradients ---------------------------------------------------------------------------

    /// adjoints of sum_i seeds[i].1 * v[seeds[i].0]; seeds are exact f32 cotangents
    pub fn gradients(&self, seeds: &[(u32, f32)]) -> Grad {
        let n = self.v.len();
        let mut g = vec![0.0f64; n];
        let mut e = vec![0.0f64; n];
        let mut mag = vec![0.0f64; n];
        let mut cnt = vec![0u32; n];
        let mut int = vec![true; n];
        for &(i, s) in seeds {
            let i = i as usize;
            g[i] += s as f64;
            mag[i] += s.abs() as f64;
            cnt[i] += 1;
            int[i] &= is_int(s as f64);
        }
        for i in (0..n).rev() {
            if cnt[i] == 0 {
                continue;
            }
            if !(cnt[i] <= 1 && e[i] == 0.0 && mag[i] == 0.0) {
                let exact = e[i] == 0.0 && (cnt[i] == 1 && int[i] || int[i] && mag[i] < INT_LIM);
                if !exact {
                    e[i] += U * mag[i] * (cnt[i] as f64 + 1.0) + 1e-44 + 1.5e-45 * cnt[i] as f64;
                }
            }
            let lo = self.start[i] as usize;
            let hi = self
                .start
                .get(i + 1)
                .map(|&x| x as usize)
                .unwrap_or(self.edges.len());
            let (gi, ei) = (g[i], e[i]);
            for ed in &self.edges[lo..hi] {
                let t = ed.to as usize;
                let c = gi * ed.p;
                g[t] += c;
                e[t] += ei * (ed.p.abs() + ed.pe) + gi.abs() * ed.pe;
                mag[t] += c.abs();
                cnt[t] += 1;
                int[t] &= is_int(c) && is_int(ed.p) && is_int(gi);
            }
        }
        Grad { g, e }
    }
}
