//! Comparison of library results with the reference.
use prima_undine::functions::*;
use prima_undine::Tensor;
use pvcore::rt::Rt;
use pvcore::tape::{Grad, Tape};
use pvcore::Sh;

use crate::from_shape;

/// tolerance multiple on the reference's own error bound
pub const SLACK: f64 = 8.0;

pub fn close(got: f32, v: f64, e: f64) -> bool {
    let got = got as f64;
    if e == 0.0 {
        // exact arithmetic (0 and -0 agree)
        return got == v;
    }
    (got - v).abs() <= SLACK * e + 1e-43
}

fn first_diff(what: &str, sh: &Sh, got: &[f32], want: impl Fn(usize) -> (f64, f64)) -> Result<(), String> {
    for (i, &g) in got.iter().enumerate() {
        let (v, e) = want(i);
        if !close(g, v, e) {
            let vol = sh.volume();
            return Err(format!(
                "{}: element {} (index {:?}, sample {}) of {} is {:?}, expected {:?} (allowed error {:.3e})",
                what,
                i,
                &sh.unflat(i % vol)[..sh.dims.len()],
                i / vol,
                sh.show(),
                g,
                v,
                SLACK * e
            ));
        }
    }
    Ok(())
}

pub fn check_shape(what: &str, t: &Tensor, sh: &Sh) -> Result<(), String> {
    let got = from_shape(t.shape());
    if &got != sh {
        return Err(format!("{}: shape {} expected {}", what, got.show(), sh.show()));
    }
    Ok(())
}

pub fn check_tensor(what: &str, got: &Tensor, tape: &Tape, want: &Rt) -> Result<(), String> {
    check_shape(what, got, &want.sh)?;
    check_values(what, &got.to_vec(), tape, want)
}

pub fn check_values(what: &str, got: &[f32], tape: &Tape, want: &Rt) -> Result<(), String> {
    if got.len() != want.id.len() {
        return Err(format!("{}: {} elements, expected {}", what, got.len(), want.id.len()));
    }
    first_diff(what, &want.sh, got, |i| (tape.val(want.id[i]), tape.err(want.id[i])))
}

pub fn check_grad(what: &str, got: &[f32], g: &Grad, want: &Rt) -> Result<(), String> {
    if got.len() != want.id.len() {
        return Err(format!("{}: {} elements, expected {}", what, got.len(), want.id.len()));
    }
    first_diff(what, &want.sh, got, |i| {
        let id = want.id[i] as usize;
        (g.g[id], g.e[id])
    })
}

pub fn check_bits(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} elements, expected {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        if got[i].to_bits() != want[i].to_bits() {
            return Err(format!(
                "{}: element {} is {:?} ({:08x}), expected {:?} ({:08x})",
                what,
                i,
                got[i],
                got[i].to_bits(),
                want[i],
                want[i].to_bits()
            ));
        }
    }
    Ok(())
}

/// numerically equal (0 and -0 agree), NaN never
pub fn check_exact(what: &str, got: &[f32], want: &[f32]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} elements, expected {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return Err(format!("{}: element {} is {:?}, expected {:?}", what, i, got[i], want[i]));
        }
    }
    Ok(())
}
