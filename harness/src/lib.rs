//! Binding of the reference vocabulary (pvcore) to prima_undine.
pub mod apply;
pub mod bwtab;
pub mod cmp;
pub mod common;
pub mod mutate;
pub mod optim;
pub mod recdev;
pub mod stat;

pub use apply::*;
pub use bwtab::*;
pub use cmp::*;
pub use common::*;
pub use recdev::*;
pub use prima_undine as pu;
pub use prima_undine::devices as D;
pub use prima_undine::functions::*;
pub use prima_undine::{Device, Model, Node, Optimizer, OptimizerBase, Parameter, Shape, Tensor};
pub use prima_undine_contrib::functions::ContribFunctions;
pub use pvcore::gen::{self, Call, Kind, Lim};
pub use pvcore::prog::{self, Built, Opts, Prog};
pub use pvcore::src::{mix, Mode, Vals};
pub use pvcore::tape::Grad;
pub use pvcore::{guarded, run_main, Case, Check, Ctx, Op, Rt, Sh, Src, Sub, Tape};

pub fn to_shape(s: &Sh) -> Shape {
    Shape::new(&s.dims, s.batch)
}

pub fn from_shape(s: Shape) -> Sh {
    let dims: Vec<u32> = (0..8).map(|i| s[i]).collect();
    Sh::new(&dims, s.batch())
}

pub fn mk<'d>(dev: &'d Device<'d>, sh: &Sh, data: &[f32]) -> Tensor<'d> {
    dev.new_tensor_by_slice(to_shape(sh), data)
}

pub fn bits(x: &[f32]) -> Vec<u32> {
    x.iter().map(|v| v.to_bits()).collect()
}

/// fills the recycled memory of the device with garbage: buffers of every size class up to `upto`
/// elements are taken, filled and returned
pub fn dirty<'d>(dev: &'d Device<'d>, upto: usize, per_class: usize, garbage: f32) {
    let mut n = 64u32;
    let mut held = vec![];
    loop {
        for _ in 0..per_class {
            let mut t = dev.new_tensor(Shape::new(&[n], 1));
            t.alloc();
            t.reset(garbage);
            held.push(t);
        }
        if n as usize >= upto {
            break;
        }
        n *= 2;
    }
}
