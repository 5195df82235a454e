//! Backward functions of the device that take operand, result and gradient of one shape family.
use prima_undine::functions::*;
use prima_undine::{Device, Tensor};

pub type Bw1 = for<'a> fn(&'a Device<'a>, &Tensor, &Tensor, &Tensor, &mut Tensor);

pub const UNARY: &[(&str, Bw1)] = &[
    ("neg_bw", |d, x, y, gy, gx| d.neg_bw(x, y, gy, gx)),
    ("sqrt_bw", |d, x, y, gy, gx| d.sqrt_bw(x, y, gy, gx)),
    ("abs_bw", |d, x, y, gy, gx| d.abs_bw(x, y, gy, gx)),
    ("sin_bw", |d, x, y, gy, gx| d.sin_bw(x, y, gy, gx)),
    ("cos_bw", |d, x, y, gy, gx| d.cos_bw(x, y, gy, gx)),
    ("tan_bw", |d, x, y, gy, gx| d.tan_bw(x, y, gy, gx)),
    ("exp_bw", |d, x, y, gy, gx| d.exp_bw(x, y, gy, gx)),
    ("ln_bw", |d, x, y, gy, gx| d.ln_bw(x, y, gy, gx)),
    ("tanh_bw", |d, x, y, gy, gx| d.tanh_bw(x, y, gy, gx)),
    ("sigmoid_bw", |d, x, y, gy, gx| d.sigmoid_bw(x, y, gy, gx)),
    ("powi_bw", |d, x, y, gy, gx| d.powi_bw(x, y, gy, 3, gx)),
    ("add_const_bw", |d, x, y, gy, gx| d.add_const_bw(x, y, gy, 2.0, gx)),
    ("sub_const_l_bw", |d, x, y, gy, gx| d.sub_const_l_bw(x, y, gy, 2.0, gx)),
    ("sub_const_r_bw", |d, x, y, gy, gx| d.sub_const_r_bw(x, y, gy, 2.0, gx)),
    ("mul_const_bw", |d, x, y, gy, gx| d.mul_const_bw(x, y, gy, 2.0, gx)),
    ("div_const_l_bw", |d, x, y, gy, gx| d.div_const_l_bw(x, y, gy, 2.0, gx)),
    ("div_const_r_bw", |d, x, y, gy, gx| d.div_const_r_bw(x, y, gy, 2.0, gx)),
    ("powf_const_l_bw", |d, x, y, gy, gx| d.powf_const_l_bw(x, y, gy, 2.0, gx)),
    ("powf_const_r_bw", |d, x, y, gy, gx| d.powf_const_r_bw(x, y, gy, 2.0, gx)),
    ("prelu_bw", |d, x, y, gy, gx| d.prelu_bw(x, y, gy, 2.0, gx)),
    ("elu_bw", |d, x, y, gy, gx| d.elu_bw(x, y, gy, 2.0, gx)),
];

pub type Bw2 = for<'a> fn(&'a Device<'a>, &Tensor, &Tensor, &Tensor, &Tensor, &mut Tensor);

pub const BINARY: &[(&str, bool, Bw2)] = &[
    ("add_bw_a", true, |d, a, b, y, gy, g| d.add_bw_a(a, b, y, gy, g)),
    ("add_bw_b", false, |d, a, b, y, gy, g| d.add_bw_b(a, b, y, gy, g)),
    ("sub_bw_a", true, |d, a, b, y, gy, g| d.sub_bw_a(a, b, y, gy, g)),
    ("sub_bw_b", false, |d, a, b, y, gy, g| d.sub_bw_b(a, b, y, gy, g)),
    ("mul_bw_a", true, |d, a, b, y, gy, g| d.mul_bw_a(a, b, y, gy, g)),
    ("mul_bw_b", false, |d, a, b, y, gy, g| d.mul_bw_b(a, b, y, gy, g)),
    ("div_bw_a", true, |d, a, b, y, gy, g| d.div_bw_a(a, b, y, gy, g)),
    ("div_bw_b", false, |d, a, b, y, gy, g| d.div_bw_b(a, b, y, gy, g)),
    ("powf_bw_a", true, |d, a, b, y, gy, g| d.powf_bw_a(a, b, y, gy, g)),
    ("powf_bw_b", false, |d, a, b, y, gy, g| d.powf_bw_b(a, b, y, gy, g)),
];

