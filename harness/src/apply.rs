//! Calls of the public API for every operation of the vocabulary, on tensors and on graph nodes.
use std::cell::RefCell;

use prima_undine::functions::*;
use prima_undine::{Device, Node, Operator, Shape, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use pvcore::Op;

use crate::to_shape;

macro_rules! ab {
    ($o:tt, $var:expr, $a:expr, $b:expr, $own:expr) => {{
        // owned operands may share their memory with the original
        let w = $var & 4 != 0;
        match $var & 3 {
            0 => $a $o $b,
            1 => $own($a, w) $o $b,
            2 => $a $o $own($b, w),
            _ => $own($a, w) $o $own($b, w),
        }
    }};
}

/// x op k
macro_rules! xk {
    ($o:tt, $var:expr, $a:expr, $k:expr, $own:expr) => {
        match $var & 3 {
            0 => $a $o $k,
            1 => $own($a, $var & 8 != 0) $o $k,
            2 => $a $o &$k,
            _ => $own($a, $var & 8 != 0) $o &$k,
        }
    };
}

/// k op x
macro_rules! kx {
    ($o:tt, $var:expr, $a:expr, $k:expr, $own:expr) => {
        match $var & 3 {
            0 => $k $o $a,
            1 => $k $o $own($a, $var & 8 != 0),
            2 => &$k $o $a,
            _ => &$k $o $own($a, $var & 8 != 0),
        }
    };
}

macro_rules! apply_impl {
    ($op:expr, $x:expr, $T:ty, $own:expr, $powcl:expr) => {{
        use Op::*;
        let x = $x;
        let r: $T = match $op {
            Neg(v) => {
                if v & 1 == 0 {
                    -x[0]
                } else {
                    -$own(x[0], v & 2 != 0)
                }
            }
            Add(v) => ab!(+, *v, x[0], x[1], $own),
            Sub(v) => ab!(-, *v, x[0], x[1], $own),
            Mul(v) => ab!(*, *v, x[0], x[1], $own),
            Div(v) => ab!(/, *v, x[0], x[1], $own),
            AddC(k, v) => if v & 4 == 0 { xk!(+, *v, x[0], *k, $own) } else { kx!(+, *v, x[0], *k, $own) },
            SubCL(k, v) => kx!(-, *v, x[0], *k, $own),
            SubCR(k, v) => xk!(-, *v, x[0], *k, $own),
            MulC(k, v) => if v & 4 == 0 { xk!(*, *v, x[0], *k, $own) } else { kx!(*, *v, x[0], *k, $own) },
            DivCL(k, v) => kx!(/, *v, x[0], *k, $own),
            DivCR(k, v) => xk!(/, *v, x[0], *k, $own),
            Pow(v) => if v & 1 == 0 { x[0].pow(x[1]) } else { x[0].pow($own(x[1], v & 2 != 0)) },
            PowCL(k) => $powcl(x[0], *k),
            Powf(k) => x[0].powf(*k),
            Powi(n) => x[0].powi(*n),
            Sqrt => x[0].sqrt(),
            Abs => x[0].abs(),
            Sin => x[0].sin(),
            Cos => x[0].cos(),
            Tan => x[0].tan(),
            Exp => x[0].exp(),
            Ln => x[0].ln(),
            Tanh => x[0].tanh(),
            Sigmoid => x[0].sigmoid(),
            Softplus => x[0].softplus(),
            Relu => x[0].relu(),
            Lrelu => x[0].lrelu(),
            Prelu(k) => x[0].prelu(*k),
            Elu(k) => x[0].elu(*k),
            Sum(d) => x[0].sum(*d),
            Max(d) => x[0].max(*d),
            Min(d) => x[0].min(*d),
            Broadcast(d, n) => x[0].broadcast(*d, *n),
            Logsumexp(d) => x[0].logsumexp(*d),
            LnSoftmax(d) => x[0].ln_softmax(*d),
            Softmax(d) => x[0].softmax(*d),
            SoftmaxCE(d) => x[0].softmax_cross_entropy(x[1], *d),
            SparseSoftmaxCE(ids, d) => x[0].sparse_softmax_cross_entropy(ids, *d),
            Matmul(v) => if v & 1 == 0 { x[0].matmul(x[1]) } else { x[0].matmul($own(x[1], v & 2 != 0)) },
            Transpose => x[0].transpose(),
            TriL(k) => x[0].triangular_l(*k),
            TriU(k) => x[0].triangular_u(*k),
            Slice(d, lo, up) => x[0].slice(*d, *lo, *up),
            Split(d, n) => return x[0].split(*d, *n),
            Pick(ids, d) => x[0].pick(ids, *d),
            Concat(d) => <$T>::concat(x, *d),
            Reshape(s) => x[0].reshape(to_shape(s)),
            Flatten => x[0].flatten(),
            BatchSum => x[0].batch_sum(),
            BatchSlice(lo, up) => x[0].batch_slice(*lo, *up),
            BatchSplit(n) => return x[0].batch_split(*n),
            BatchPick(ids) => x[0].batch_pick(ids),
            BatchConcat => <$T>::batch_concat(x),
            Mean(d) => x[0].mean(*d),
            BatchMean => x[0].batch_mean(),
            SliceSum => <$T>::slice_sum(x),
            BatchNorm(eps, on) => x[0].batch_normalization(x[1], x[2], *eps, *on),
            LayerNorm(eps) => x[0].layer_normalization(x[1], x[2], *eps),
            DropoutOff(r) => x[0].dropout(*r, false),
            DropoutAll(r) => x[0].dropout(*r, true),
        };
        vec![r]
    }};
}

pub fn apply_tensor<'d>(op: &Op, x: &[&Tensor<'d>]) -> Vec<Tensor<'d>> {
    fn own<'d>(t: &Tensor<'d>, view: bool) -> Tensor<'d> {
        if view {
            let v: Tensor = Tensor::from(t);
            // SAFETY: the view is used up by the operation, and the operand outlives the call
            return unsafe { std::mem::transmute::<Tensor, Tensor<'d>>(v) };
        }
        t.device().copy_tensor(t)
    }
    fn powcl<'d>(t: &Tensor<'d>, k: f32) -> Tensor<'d> {
        // the device function's result borrows the device only
        let dev: &'d Device<'d> = t.device();
        dev.powf_const_l_fw(t, k)
    }
    apply_impl!(op, x, Tensor<'d>, own, powcl)
}

pub fn apply_node<'a, 'd>(op: &Op, x: &[&Node<'a, 'd>]) -> Vec<Node<'a, 'd>>
where
    'd: 'a,
{
    fn own<'a, 'd: 'a>(n: &Node<'a, 'd>, _view: bool) -> Node<'a, 'd> {
        Node::create(Pass { device: n.device() }, &[n]).pop().unwrap()
    }
    fn powcl<'a, 'd: 'a>(n: &Node<'a, 'd>, k: f32) -> Node<'a, 'd> {
        Node::create(PowConstL { device: n.device(), k }, &[n]).pop().unwrap()
    }
    apply_impl!(op, x, Node<'a, 'd>, own, powcl)
}

fn add_into(g: &RefCell<Tensor>, v: &[f32]) {
    let mut g = g.borrow_mut();
    let mut cur = g.to_vec();
    for (c, x) in cur.iter_mut().zip(v) {
        *c += x;
    }
    let dev = g.device();
    dev.reset_tensor_by_slice(&mut g, &cur);
}

/// identity operator: gives an owned node standing for an existing one
pub struct Pass<'d> {
    pub device: &'d Device<'d>,
}

impl<'a, 'd: 'a> Operator<'a, 'd> for Pass<'d> {
    fn name(&self) -> String {
        "Pass".into()
    }
    fn device(&self) -> &'d Device<'d> {
        self.device
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![x[0]]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        y[0].alloc();
        let v = x[0].to_vec();
        self.device.reset_tensor_by_slice(y[0], &v);
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        add_into(gx[0], &gy[0].to_vec());
    }
}

/// k ^ x as a graph operator (the library exports the device functions for it, not the operator)
struct PowConstL<'d> {
    device: &'d Device<'d>,
    k: f32,
}

impl<'a, 'd: 'a> Operator<'a, 'd> for PowConstL<'d> {
    fn name(&self) -> String {
        "PowConstL".into()
    }
    fn device(&self) -> &'d Device<'d> {
        self.device
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![x[0]]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        y[0].replace(self.device.powf_const_l_fw(x[0], self.k));
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        self.device.powf_const_l_bw(x[0], y[0], gy[0], self.k, &mut gx[0].borrow_mut());
    }
}

/// root operator: on backward it adds a prescribed cotangent to the gradient of each operand
pub struct Seed<'d> {
    pub device: &'d Device<'d>,
    pub cots: Vec<Vec<f32>>,
}

impl<'a, 'd: 'a> Operator<'a, 'd> for Seed<'d> {
    fn name(&self) -> String {
        "Seed".into()
    }
    fn device(&self) -> &'d Device<'d> {
        self.device
    }
    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
        vec![Shape::new(&[], 1)]
    }
    fn forward(&self, _x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        y[0].alloc();
        y[0].reset(0.);
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], _gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        for (g, c) in gx.iter().zip(&self.cots) {
            add_into(g, c);
        }
    }
}
