//! A recording backend: every buffer request and every kernel call is logged and checked, and the
//! kernels are forwarded to the library's own implementation. It is an ordinary backend written
//! against the public backend interface.
use std::collections::{HashMap, HashSet};
use std::ffi::c_void;
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Tensor};
use pvcore::Sh;

use crate::from_shape;

pub const KERNELS: &[&str] = &[
    "reset_tensor_impl", "reset_tensor_by_slice_impl", "reset_tensor_by_tensor_impl", "tensor_to_vector_impl",
    "identity_impl", "random_bernoulli_impl", "random_normal_impl", "random_uniform_impl",
    "add_assign_impl", "sub_assign_impl", "mul_assign_const_impl",
    "argmax_impl", "argmin_impl", "argsort_impl",
    "neg_fw_impl", "neg_bw_impl",
    "add_fw_impl", "add_bw_a_impl", "add_bw_b_impl", "add_const_fw_impl", "add_const_bw_impl", "add_scalar_fw_impl",
    "sub_fw_impl", "sub_bw_a_impl", "sub_bw_b_impl", "sub_const_l_fw_impl", "sub_const_l_bw_impl",
    "sub_const_r_fw_impl", "sub_const_r_bw_impl", "sub_scalar_l_fw_impl", "sub_scalar_r_fw_impl",
    "mul_fw_impl", "mul_bw_a_impl", "mul_bw_b_impl", "mul_const_fw_impl", "mul_const_bw_impl", "mul_scalar_fw_impl",
    "div_fw_impl", "div_bw_a_impl", "div_bw_b_impl", "div_const_l_fw_impl", "div_const_l_bw_impl",
    "div_const_r_fw_impl", "div_const_r_bw_impl", "div_scalar_l_fw_impl", "div_scalar_r_fw_impl",
    "powf_fw_impl", "powf_bw_a_impl", "powf_bw_b_impl", "powf_const_l_fw_impl", "powf_const_l_bw_impl",
    "powf_const_r_fw_impl", "powf_const_r_bw_impl", "powf_scalar_l_fw_impl", "powf_scalar_r_fw_impl",
    "sqrt_fw_impl", "sqrt_bw_impl", "abs_fw_impl", "abs_bw_impl", "powi_fw_impl", "powi_bw_impl",
    "sin_fw_impl", "sin_bw_impl", "cos_fw_impl", "cos_bw_impl", "tan_fw_impl", "tan_bw_impl",
    "exp_fw_impl", "exp_bw_impl", "ln_fw_impl", "ln_bw_impl", "tanh_fw_impl", "tanh_bw_impl",
    "sigmoid_fw_impl", "sigmoid_bw_impl", "softplus_fw_impl", "softplus_bw_impl",
    "sum_fw_impl", "logsumexp_fw_impl", "max_fw_impl", "max_bw_impl", "min_fw_impl", "min_bw_impl",
    "broadcast_fw_impl", "matmul_fw_impl", "matmul_bw_a_impl", "matmul_bw_b_impl",
    "transpose_fw_impl", "transpose_bw_impl", "permute_dims_fw_impl", "permute_dims_bw_impl",
    "flip_fw_impl", "flip_bw_impl", "triangular_l_fw_impl", "triangular_l_bw_impl",
    "triangular_u_fw_impl", "triangular_u_bw_impl", "prelu_fw_impl", "prelu_bw_impl",
    "elu_fw_impl", "elu_bw_impl", "slice_fw_impl", "slice_bw_impl", "pick_fw_impl", "pick_bw_impl",
    "concat_fw_impl", "batch_concat_fw_impl", "batch_pick_fw_impl", "batch_pick_bw_impl",
    "batch_slice_fw_impl", "batch_slice_bw_impl", "batch_sum_fw_impl",
];

/// the list above plus every `"..._impl"` string in the current sources, so that kernels added or
/// renamed later are forwarded too
pub fn kernel_names() -> &'static Vec<String> {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let mut set: HashSet<String> = KERNELS.iter().map(|s| s.to_string()).collect();
        let root = std::env::var("PV_REPO").unwrap_or_else(|_| "/repo".into());
        scan(std::path::Path::new(&root).join("prima_undine").join("src").as_path(), &mut set);
        let mut v: Vec<String> = set.into_iter().collect();
        v.sort();
        v
    })
}

fn scan(dir: &std::path::Path, out: &mut HashSet<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            scan(&p, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            for part in s.split('"') {
                if part.len() < 60 && part.ends_with("_impl") && part.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') {
                    out.insert(part.to_string());
                }
            }
        }
    }
}

pub fn inner() -> &'static Device<'static> {
    static D: OnceLock<&'static Device<'static>> = OnceLock::new();
    D.get_or_init(|| Box::leak(Box::new(prima_undine::devices::Naive::new())))
}

/// Guard zones need buffers of our own in the layout the naive kernels expect (a pointer to a vector
/// of floats). If the naive backend ever hands out something else, guard zones are left out.
fn layout_known() -> bool {
    static L: OnceLock<bool> = OnceLock::new();
    *L.get_or_init(|| {
        let n = 1000usize;
        let h = inner().new_handle(n as u32);
        let p = h.load(Ordering::Acquire) as *const usize;
        // 1024 floats or a vector header: three words are readable in either case
        let w = unsafe { [*p, *p.add(1), *p.add(2)] };
        let small = w.iter().filter(|&&x| x >= n && x <= 1 << 16).count();
        let ptrs = w.iter().filter(|&&x| x > 1 << 16 && x % 4 == 0 && x < 1 << 48).count();
        let ok = small == 2 && ptrs == 1;
        inner().drop_handle(&h);
        ok
    })
}

const GUARD: usize = 32;
const PAT: u32 = 0x7fc0_5a5a; // a NaN with a payload

struct Buf {
    base: *mut f32,
    total: usize,
    off: usize,
    size: usize,
    boxed: *mut ManuallyDrop<Vec<f32>>,
}
unsafe impl Send for Buf {}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub name: String,
    pub xs: Vec<usize>,
    pub x_shapes: Vec<Sh>,
    pub ys: Vec<usize>,
    pub gys: Vec<usize>,
    pub u32s: Vec<u32>,
    pub f32s: Vec<f32>,
    pub outs: Vec<usize>,
    pub out_shapes: Vec<Sh>,
}

#[derive(Default)]
pub struct State {
    guard: bool,
    bufs: HashMap<usize, Buf>,
    /// buffers currently obtained from the backend, with size
    pub live: HashMap<usize, u32>,
    pub requested: u64,
    pub released: u64,
    pub requests: Vec<u32>,
    pub errors: Vec<String>,
    pub log: bool,
    pub calls: Vec<CallRec>,
    /// kernel that panics when called
    pub trip: Option<String>,
    /// check guard zones and operands around every kernel call
    pub paranoid: bool,
    /// delays in the backend, so that threads meet in different orders
    pub jitter: Option<u64>,
}

pub type Shared = Arc<Mutex<State>>;

fn jitter(st: &Shared) {
    let z = {
        let mut s = lock(st);
        let Some(j) = s.jitter.as_mut() else { return };
        *j = pvcore::src::mix(*j);
        *j
    };
    match z % 16 {
        0..=5 => {}
        6..=10 => std::thread::yield_now(),
        11..=14 => {
            for _ in 0..(z >> 8) % 2000 {
                std::hint::spin_loop()
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros((z >> 8) % 60)),
    }
}

fn lock(s: &Shared) -> std::sync::MutexGuard<'_, State> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    pub fn check_guards(&mut self) {
        let mut bad = vec![];
        for b in self.bufs.values() {
            unsafe {
                for i in (0..b.off).chain(b.off + b.size..b.total) {
                    if (*b.base.add(i)).to_bits() != PAT {
                        bad.push(format!(
                            "write outside a buffer of {} elements: position {}",
                            b.size,
                            i as i64 - b.off as i64
                        ));
                        break;
                    }
                }
            }
        }
        self.errors.extend(bad);
    }
    pub fn size_of(&self, h: usize) -> Option<u32> {
        self.live.get(&h).copied()
    }
}

struct RecImpl {
    st: Shared,
}

impl DeviceImpl for RecImpl {
    fn identifier(&self) -> String {
        "Recorder".into()
    }

    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        jitter(&self.st);
        let guard = lock(&self.st).guard;
        let p = if guard {
            let total = size as usize + 2 * GUARD;
            let mut raw = ManuallyDrop::new(vec![f32::from_bits(PAT); total]);
            let base = raw.as_mut_ptr();
            let v = unsafe { Vec::from_raw_parts(base.add(GUARD), size as usize, size as usize) };
            let boxed = Box::into_raw(Box::new(ManuallyDrop::new(v)));
            let p = boxed as *mut c_void;
            lock(&self.st).bufs.insert(p as usize, Buf { base, total, off: GUARD, size: size as usize, boxed });
            p
        } else {
            inner().new_handle(size).load(Ordering::Acquire)
        };
        let mut st = lock(&self.st);
        st.requested += 1;
        st.requests.push(size);
        if st.live.insert(p as usize, size).is_some() {
            st.errors.push("backend gave a live buffer twice (harness error)".into());
        }
        AtomicPtr::new(p)
    }

    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        let p = handle.load(Ordering::Acquire) as usize;
        let mut st = lock(&self.st);
        st.released += 1;
        if st.live.remove(&p).is_none() {
            st.errors.push("a buffer was returned to the backend twice, or never came from it".into());
            return;
        }
        if st.guard {
            st.check_guards();
            if let Some(b) = st.bufs.remove(&p) {
                unsafe {
                    drop(Box::from_raw(b.boxed)); // the ManuallyDrop keeps the vector's memory
                    drop(Vec::from_raw_parts(b.base, b.total, b.total));
                }
            }
        } else {
            drop(st);
            inner().drop_handle(&AtomicPtr::new(p as *mut c_void));
        }
    }
}

struct Fwd {
    name: String,
    st: Shared,
}

fn hd(t: &Tensor) -> usize {
    t.handle().load(Ordering::Acquire) as usize
}

impl Fwd {
    fn note(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], outs: &[(usize, Sh)]) {
        jitter(&self.st);
        let mut st = lock(&self.st);
        // copies between devices read through the device of the source
        let foreign = self.name == "reset_tensor_by_tensor_impl";
        for t in xs.iter().filter(|_| !foreign).chain(ys).chain(gys) {
            let h = hd(t);
            if h != 0 && !st.live.contains_key(&h) {
                let m = format!("{} was called on a buffer the backend does not own", self.name);
                st.errors.push(m);
            }
        }
        if st.log {
            let c = CallRec {
                name: self.name.clone(),
                xs: xs.iter().map(|t| hd(t)).collect(),
                x_shapes: xs.iter().map(|t| from_shape(t.shape())).collect(),
                ys: ys.iter().map(|t| hd(t)).collect(),
                gys: gys.iter().map(|t| hd(t)).collect(),
                u32s: u.to_vec(),
                f32s: f.to_vec(),
                outs: outs.iter().map(|o| o.0).collect(),
                out_shapes: outs.iter().map(|o| o.1.clone()).collect(),
            };
            st.calls.push(c);
        }
        let trip = st.trip.as_deref() == Some(&self.name);
        drop(st);
        if trip {
            panic!("kernel {} refuses (injected)", self.name);
        }
    }
}

type Image = Option<Vec<(usize, Vec<u32>)>>;

impl Fwd {
    /// contents of the operands
    fn image(&self, ops: &[&[&Tensor]]) -> Image {
        let st = lock(&self.st);
        if !st.paranoid || !st.guard {
            return None;
        }
        Some(ops.iter().flat_map(|o| o.iter()).filter_map(|t| st.bufs.get(&hd(t)).map(|b| (hd(t), b.words(from_shape(t.shape()).size())))).collect())
    }
    /// guard zones are whole, and the operands (except those that are also results) as before
    fn compare(&self, before: Image, outs: &[(usize, Sh)]) {
        let Some(before) = before else { return };
        let mut st = lock(&self.st);
        let n = st.errors.len();
        st.check_guards();
        let mut bad = vec![];
        for (h, old) in &before {
            let Some(b) = st.bufs.get(h) else { continue };
            if !outs.iter().any(|o| o.0 == *h) && b.words(old.len()) != *old {
                bad.push("an operand was changed".to_string());
            }
        }
        st.errors.extend(bad);
        for e in &mut st.errors[n..] {
            *e = format!("{}: {}", self.name, e);
        }
    }
}

impl Buf {
    fn words(&self, n: usize) -> Vec<u32> {
        unsafe { std::slice::from_raw_parts(self.base.add(self.off) as *const u32, n.min(self.size)).to_vec() }
    }
}

impl FunctionFwImpl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let outs: Vec<_> = ys.iter().map(|t| (hd(t), from_shape(t.shape()))).collect();
        self.note(xs, &[], &[], u, f, &outs);
        let img = self.image(&[xs]);
        inner().call_fw_impl(&self.name, xs, u, f, ys);
        self.compare(img, &outs);
    }
}
impl FunctionFwU32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.note(xs, &[], &[], u, f, &[]);
        let img = self.image(&[xs]);
        inner().call_fw_u32_impl(&self.name, xs, u, f, ys);
        self.compare(img, &[]);
    }
}
impl FunctionFwF32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.note(xs, &[], &[], u, f, &[]);
        let img = self.image(&[xs]);
        inner().call_fw_f32_impl(&self.name, xs, u, f, ys);
        self.compare(img, &[]);
    }
}
impl FunctionBwImpl for Fwd {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        let outs = [(hd(gx), from_shape(gx.shape()))];
        self.note(xs, ys, gys, u, f, &outs);
        let img = self.image(&[xs, ys, gys]);
        inner().call_bw_impl(&self.name, xs, ys, gys, u, f, gx);
        self.compare(img, &outs);
    }
}

/// a device on the recording backend; `guard` surrounds every buffer with checked guard zones
pub fn rec_device(guard: bool) -> (Device<'static>, Shared) {
    let guard = guard && layout_known();
    let st: Shared = Arc::new(Mutex::new(State { guard, ..State::default() }));
    let mut dev = Device::new(RecImpl { st: st.clone() });
    for n in kernel_names() {
        dev.register_fw_impl(n, Fwd { name: n.clone(), st: st.clone() });
        dev.register_fw_u32_impl(n, Fwd { name: n.clone(), st: st.clone() });
        dev.register_fw_f32_impl(n, Fwd { name: n.clone(), st: st.clone() });
        dev.register_bw_impl(n, Fwd { name: n.clone(), st: st.clone() });
    }
    (dev, st)
}

pub fn errors(st: &Shared) -> Result<(), String> {
    let mut s = lock(st);
    s.check_guards();
    match s.errors.first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    }
}

/// after the device is gone: everything that was taken from the backend was given back
pub fn settled(st: &Shared) -> Result<(), String> {
    errors(st)?;
    let s = lock(st);
    if !s.live.is_empty() || s.requested != s.released {
        return Err(format!(
            "{} buffers were requested from the backend, {} returned, {} still out after the device was dropped",
            s.requested,
            s.released,
            s.live.len()
        ));
    }
    Ok(())
}

pub fn with_state<R>(st: &Shared, f: impl FnOnce(&mut State) -> R) -> R {
    f(&mut lock(st))
}

pub fn handle_of(t: &Tensor) -> usize {
    hd(t)
}
