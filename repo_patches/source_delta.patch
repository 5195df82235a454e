From c477e3658b41ac549f05f77c56d661d79be7c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 01/21] fix: batch_slice_bw dispatches to the minibatch slice
 kernel

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From 3c704569942408ecbd33c42f7efc2798a0070b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 02/21] fix: batch_pick_bw dispatches to the minibatch pick
 kernel

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From ea0aa9152e4c40ef3babdf86e1254e7196f0ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 03/21] fix: batch_split routes each output's gradient to its
 own samples

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From a0c5379450eb608dfe0acadbb5400c006134c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 04/21] fix: the ELU operator computes ELU instead of PReLU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 1edc7557925bd043ffa6568df71f109148e59f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 05/21] fix: provide the backward kernel of negation

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From d5161c9330bba5d818122538c8841cc119b25095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 06/21] fix: sum and logsumexp back-propagate along dimensions
 past the depth

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From cab19ab38f497e7069fc9d64c73da0df9763ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 07/21] fix: graph operators with a scalar operand infer the
 shape by the scalar rule

---
 prima_undine/src/operators/add.rs    | 1 +
 prima_undine/src/operators/common.rs | 5 ++++-
 prima_undine/src/operators/div.rs    | 2 ++
 prima_undine/src/operators/mul.rs    | 1 +
 prima_undine/src/operators/powf.rs   | 2 ++
 prima_undine/src/operators/sub.rs    | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..0237c2a 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -17,6 +17,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..822056c 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -25,6 +25,9 @@ macro_rules! define_operator_struct {
 
 macro_rules! define_operator_ab {
     ($name:ident, $fw:ident, $bwfunc:expr) => {
+        define_operator_ab!($name, $fw, elementwise, $bwfunc);
+    };
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +37,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..34d2493 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -18,6 +18,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..eaac986 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -17,6 +17,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..0a0d12d 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -18,6 +18,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..9299c86 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -18,6 +18,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +28,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From a015d7421355f76e7cd94615f3d438cd5ffd8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 08/21] fix: Tensor::pow accepts a scalar operand like the
 other arithmetic and like Node::pow

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 7b5179712e5aa4f02dc25a3edddade6ecc7fa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 09/21] fix: in-place += and -= refuse operands of another
 shape instead of touching foreign memory

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From b91195256a2d2699f95898b2f316bf42540afbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 10/21] fix: backward seeds only its root value and clears the
 gradients of the pass first

---
 prima_undine/src/graph.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..730c60d 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,18 +128,11 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
-        for ret in &op_info.rets {
-            let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
-        }
-    }
-    queue.push_back(op_info);
+    queue.push_back(Rc::clone(&op_info));
     while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
@@ -148,8 +141,16 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
                 reached.insert(ptr);
             }
         }
+        for ret in &op_info.rets {
+            let mut grad = ret.gradient.borrow_mut();
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
+        }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    op_info.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +170,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +212,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 5dfff247fdff28029c973a2b1713d0ffb0712a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 11/21] fix: shapes whose size overflows 32 bits are refused
 instead of wrapping around

---
 prima_undine/src/shape.rs     | 12 +++++++++---
 prima_undine/src/shape_ops.rs |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..f57e961 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -20,7 +20,7 @@ impl Shape {
         assert!(dims.len() <= MAX_DEPTH as usize);
         assert!(batch >= 1);
         let mut dims_filled = [1; MAX_DEPTH as usize];
-        let mut volume = 1;
+        let mut volume = 1u32;
         let mut depth = 0;
         for i in 0..dims.len() {
             assert!(dims[i] != 0);
@@ -28,8 +28,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = volume.checked_mul(dims[i]).unwrap();
         }
+        volume.checked_mul(batch).unwrap();
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -129,6 +130,10 @@ impl Shape {
     pub fn update_dim(&mut self, dim: u32, m: u32) {
         assert!(dim < MAX_DEPTH);
         assert!(m != 0);
+        let volume = (self.volume / self.dims[dim as usize])
+            .checked_mul(m)
+            .unwrap();
+        volume.checked_mul(self.batch).unwrap();
         if dim >= self.depth {
             let new_depth = dim + 1;
             for i in self.depth..new_depth {
@@ -136,7 +141,7 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = volume;
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -145,6 +150,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        self.volume.checked_mul(batch).unwrap();
         self.batch = batch;
     }
 }
diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..12b7662 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).unwrap();
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).unwrap();
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From 3ca486572ede9ff5020400f808dbdb645c804ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 12/21] fix: triangular parts with a huge diagonal offset are
 empty instead of overflowing

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c3cd93d 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..77e1aba 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From 9036ba703f1e351ea15cc96bdfe07ad9311d3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 13/21] fix: deep graphs are released without recursion

---
 prima_undine/src/graph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 730c60d..a788e9f 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -2,6 +2,7 @@ use std::cell::{Cell, Ref, RefCell, RefMut};
 use std::cmp;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, HashSet, VecDeque};
+use std::mem;
 use std::rc::Rc;
 
 use crate::operators as op;
@@ -50,6 +51,19 @@ impl<'arg, 'dev> PartialOrd for OperatorInfoCmp<'arg, 'dev> {
     }
 }
 
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    fn drop(&mut self) {
+        // Releases the operands iteratively: a recursive drop of a deep graph
+        // would overflow the stack.
+        let mut args = mem::replace(&mut self.args, vec![]);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 pub struct Node<'arg, 'dev> {
     data: DataRef<'arg, 'dev>,
 }
-- 
2.43.0


From 9e534f6ec9bb8a527e45845f763c9c80fa3cfdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 14/21] fix: a tensor never takes over memory it only refers
 to, and owns what it allocates

---
 prima_undine/src/tensor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..3e44db2 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -51,6 +51,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert!(self.host_values.is_none());
         self.handle = self.device.unwrap().new_handle(self.shape.size());
+        self.reference = None;
     }
 
     pub fn valid(&self) -> bool {
@@ -72,6 +73,13 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        if other.valid() && other.reference.is_some() {
+            // The memory belongs to the referent of `other`.
+            self.alloc();
+            self.device().reset_tensor_by_tensor(self, &other);
+            return;
+        }
+        self.reference = None;
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
-- 
2.43.0


From 37a06709e033952170cf9f8a11adc90c50aa4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 15/21] fix: move_to_device checks the number of values before
 it changes the tensor

---
 prima_undine/src/tensor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 3e44db2..6bf9abc 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -41,6 +41,8 @@ impl<'dev> Tensor<'dev> {
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
         assert!(self.host_values.is_some());
+        let len = self.host_values.as_ref().unwrap().len();
+        assert!(self.shape.size() as usize == len);
         self.device = Some(device);
         self.handle = self.device.unwrap().new_handle(self.shape.size());
         let values = self.host_values.take().unwrap();
-- 
2.43.0


From 2afe60636ac254d6bd78df03afd4ea6c36a2b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 16/21] fix: a rejected random call does not disable the random
 source of the device

---
 prima_undine/src/devices/naive/random.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/devices/naive/random.rs b/prima_undine/src/devices/naive/random.rs
index c7e2fe4..809ebf8 100644
--- a/prima_undine/src/devices/naive/random.rs
+++ b/prima_undine/src/devices/naive/random.rs
@@ -26,7 +26,7 @@ impl FunctionFwImpl for RandomBernoulliImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_bernoulli(p, &mut yslice)
         }
     }
@@ -54,7 +54,7 @@ impl FunctionFwImpl for RandomNormalImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_normal(mean, sd, &mut yslice)
         }
     }
@@ -82,7 +82,7 @@ impl FunctionFwImpl for RandomUniformImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_uniform(lower, upper, &mut yslice)
         }
     }
-- 
2.43.0


From 3df9d1a27e2f34e4b3c4f436a948476b6f127af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 17/21] fix: the gradient of the zeroth power is zero also at a
 zero base

---
 prima_undine/src/devices/naive/powf.rs | 12 ++++++++++--
 prima_undine/src/devices/naive/powi.rs |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index e6a811e..d5072cd 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -28,7 +28,10 @@ impl FunctionBwImpl for PowfBwAImpl {
             let mut pga = mut_ptr!(ga);
             for _ in 0..gy.shape.batch() {
                 for i in 0..volume {
-                    *pga.add(i) += *pgy.add(i) * *pb.add(i) * (*pa.add(i)).powf(*pb.add(i) - 1.);
+                    // da^0/da = 0, also at a = 0
+                    if *pb.add(i) != 0. {
+                        *pga.add(i) += *pgy.add(i) * *pb.add(i) * (*pa.add(i)).powf(*pb.add(i) - 1.);
+                    }
                 }
                 pa = pa.add(a_shift);
                 pb = pb.add(b_shift);
@@ -81,7 +84,12 @@ define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32|
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
-    gy * k * x.powf(k - 1.)
+    // dx^0/dx = 0, also at x = 0
+    if k != 0. {
+        gy * k * x.powf(k - 1.)
+    } else {
+        0.
+    }
 });
 define_naive_fw_scalar_impl!(PowfScalarLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_fw_scalar_impl!(PowfScalarRFwImpl, |x: f32, k: f32| { x.powf(k) });
diff --git a/prima_undine/src/devices/naive/powi.rs b/prima_undine/src/devices/naive/powi.rs
index 20f801c..d90accf 100644
--- a/prima_undine/src/devices/naive/powi.rs
+++ b/prima_undine/src/devices/naive/powi.rs
@@ -33,6 +33,10 @@ impl FunctionBwImpl for PowiBwImpl {
         let gy = gys[0];
         let n = u32data[0] as i32;
         let size = gy.shape.size() as usize;
+        if n == 0 {
+            // dx^0/dx = 0, also at x = 0
+            return;
+        }
         unsafe {
             let px = const_ptr!(x);
             let pgy = const_ptr!(gy);
-- 
2.43.0


From f423c9f030c317617c7adbf55469877d35b9f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 18/21] fix: scalar powers have the right gradient at a zero
 base

---
 prima_undine/src/operators/powf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 0a0d12d..4c35780 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -22,7 +22,8 @@ define_operator_ab!(
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+        // k x^(k-1) form: y / x is undefined at a zero base
+        *gx[1].borrow_mut() += (gy[0] * x[0] * x[1].pow(x[0] - 1.)).flatten().sum(0);
     }
 );
 
@@ -32,7 +33,7 @@ define_operator_ab!(
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
+        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
         *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
     }
 );
-- 
2.43.0


From 27ea2b39f8660a7fb8f489d34f2bc23a04eecf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 19/21] fix: the derived model handles defaulted and reordered
 generic parameters

---
 prima_undine_derive/src/lib.rs | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/prima_undine_derive/src/lib.rs b/prima_undine_derive/src/lib.rs
index dbbefe1..4ef4f5c 100644
--- a/prima_undine_derive/src/lib.rs
+++ b/prima_undine_derive/src/lib.rs
@@ -13,24 +13,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let ast: DeriveInput = syn::parse(input).unwrap();
     let name = ast.ident;
     let generics = ast.generics;
-    let gparams = &generics.params;
-    let gwhere = generics.where_clause;
-    let mut gtypes = vec![];
-    let mut glifetimes = vec![];
-    let mut gconsts = vec![];
-    for param in generics.params.iter() {
-        match param {
-            syn::GenericParam::Type(x) => {
-                gtypes.push(&x.ident);
-            }
-            syn::GenericParam::Lifetime(x) => {
-                glifetimes.push(&x.lifetime);
-            }
-            syn::GenericParam::Const(x) => {
-                gconsts.push(&x.ident);
-            }
-        }
-    }
+    // Bounds, defaults and the order of the parameters differ between the impl
+    // header and the type.
+    let (gimpl, gtype, gwhere) = generics.split_for_impl();
     if let Data::Struct(data) = ast.data {
         if let Fields::Named(fields) = data.fields {
             let mut field_updater = vec![];
@@ -52,9 +37,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
                 }
                 field_updater.push(field.ident.as_ref().unwrap());
             }
-            let first_lifetime = glifetimes[0];
+            let first_lifetime = &generics.lifetimes().next().unwrap().lifetime;
             let tokens = quote! {
-                impl<#gparams> prima_undine::Model<#first_lifetime> for #name<#(#glifetimes ,)* #(#gtypes ,)* #({#gconsts} ,)*> #gwhere {
+                impl #gimpl prima_undine::Model<#first_lifetime> for #name #gtype #gwhere {
                     fn parameters(&self) -> Vec<&prima_undine::Parameter<#first_lifetime>> {
                         let mut params = vec![];
                         #( params.append(&mut self.#field_updater.parameters()); )*
-- 
2.43.0


From 551e7971798888ec5a16ba9e33278661bc6f9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 20/21] fix: an operation whose evaluation was refused does not
 count as evaluated

---
 prima_undine/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index a788e9f..adff434 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -122,7 +122,6 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         if op_info.forwarded.get() {
             continue;
         }
-        op_info.forwarded.set(true);
         let xs = op_info
             .args
             .iter()
@@ -139,6 +138,7 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .map(|y| &mut **y)
             .collect::<Vec<&mut Tensor<'arg>>>();
         op_info.operator.forward(&xs_ref, &mut ys_ref);
+        op_info.forwarded.set(true);
     }
 }
 
-- 
2.43.0


From 37c7e3f57ae912e9eb119a54df2106b6d7ccbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 21/21] fix: powers have a gradient by their exponent also at a
 zero base

---
 prima_undine/src/devices/naive/powf.rs | 12 +++++++++--
 prima_undine/src/operators/powf.rs     | 29 +++++++++++++++++---------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index d5072cd..fea7d7b 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -67,7 +67,10 @@ impl FunctionBwImpl for PowfBwBImpl {
             let mut pgb = mut_ptr!(gb);
             for _ in 0..y.shape.batch() {
                 for i in 0..volume {
-                    *pgb.add(i) += *pgy.add(i) * (*pa.add(i)).ln() * *py.add(i);
+                    // d0^b/db = 0 for b > 0, although ln(0) is infinite
+                    if *py.add(i) != 0. {
+                        *pgb.add(i) += *pgy.add(i) * (*pa.add(i)).ln() * *py.add(i);
+                    }
                 }
                 pa = pa.add(a_shift);
                 py = py.add(volume);
@@ -80,7 +83,12 @@ impl FunctionBwImpl for PowfBwBImpl {
 
 define_naive_fw_const_impl!(PowfConstLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32| {
-    gy * k.ln() * y
+    // d0^x/dx = 0 for x > 0, although ln(0) is infinite
+    if y != 0. {
+        gy * k.ln() * y
+    } else {
+        0.
+    }
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 4c35780..1cf81be 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -1,7 +1,7 @@
 use std::cell::RefCell;
 
 use crate::functions::{BasicDeviceFunctions, BasicFunctions};
-use crate::{Device, Tensor};
+use crate::{Device, Shape, Tensor};
 
 define_operator_ab!(
     Pow,
@@ -15,15 +15,22 @@ define_operator_ab!(
 define_operator_x!(PowConstL, powf_const_l_fw, powf_const_l_bw, k, f32);
 define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 
+/// Repeats a scalar over all elements of each of its samples.
+fn expand<'dev>(k: &Tensor<'dev>, shape: Shape) -> Tensor<'dev> {
+    k.broadcast(0, shape.volume())
+        .reshape(shape.resize_batch(k.shape().batch()))
+}
+
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1].ln();
-        // k x^(k-1) form: y / x is undefined at a zero base
-        *gx[1].borrow_mut() += (gy[0] * x[0] * x[1].pow(x[0] - 1.)).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = expand(x[1], x[0].shape());
+        let mut gk = device.new_tensor_by_constant(k.shape(), 0.);
+        device.powf_bw_a(&k, x[0], y[0], gy[0], &mut gk);
+        device.powf_bw_b(&k, x[0], y[0], gy[0], &mut *gx[0].borrow_mut());
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
 
@@ -31,9 +38,11 @@ define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
-        *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = expand(x[1], x[0].shape());
+        let mut gk = device.new_tensor_by_constant(k.shape(), 0.);
+        device.powf_bw_a(x[0], &k, y[0], gy[0], &mut *gx[0].borrow_mut());
+        device.powf_bw_b(x[0], &k, y[0], gy[0], &mut gk);
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
-- 
2.43.0

