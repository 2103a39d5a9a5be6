From 6ccecbed06dec111cbdf1fef91bc5073b1735dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 01/16] fix: register the missing negation backward kernel

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 275c1ce74eb4ed0b034430c5763aaff826a10713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 02/16] fix: dispatch batch_slice_bw and batch_pick_bw to the
 batch kernels

---
 prima_undine/src/functions/basic/device.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,14 +460,14 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From 949a991afb07701f51d7060da3def192d7d442a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 03/16] fix: BatchSplit backward uses the gradient of each
 output

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From 023ec1f9ab61db3f2aa3371a36420ec14d4e681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 04/16] fix: ELU operator computes ELU instead of PReLU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 97493a42220394075f394d1b8b6ace266619b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 05/16] fix: Sum and Logsumexp backward accept a dimension
 beyond the tensor depth

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From 62c97d501d611719b563b1b2286c5c2c020f09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 06/16] fix: scalar operators declare the shape their scalar
 kernels produce

---
 prima_undine/src/operators/add.rs    | 1 +
 prima_undine/src/operators/common.rs | 5 ++++-
 prima_undine/src/operators/div.rs    | 2 ++
 prima_undine/src/operators/mul.rs    | 1 +
 prima_undine/src/operators/powf.rs   | 2 ++
 prima_undine/src/operators/sub.rs    | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..0237c2a 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -17,6 +17,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..822056c 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -25,6 +25,9 @@ macro_rules! define_operator_struct {
 
 macro_rules! define_operator_ab {
     ($name:ident, $fw:ident, $bwfunc:expr) => {
+        define_operator_ab!($name, $fw, elementwise, $bwfunc);
+    };
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +37,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..34d2493 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -18,6 +18,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..eaac986 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -17,6 +17,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..0a0d12d 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -18,6 +18,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..9299c86 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -18,6 +18,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +28,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From ffcc1fb4285ef680aea340a8c287c054152ce2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 07/16] fix: add_assign and sub_assign reject operands of
 different dimensions

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From d6cd8262dd46f2b11d8da6796da259e4d574e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 08/16] fix: Shape volume and size panic on overflow instead of
 wrapping

---
 prima_undine/src/shape.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..17c8bdb 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -20,7 +20,7 @@ impl Shape {
         assert!(dims.len() <= MAX_DEPTH as usize);
         assert!(batch >= 1);
         let mut dims_filled = [1; MAX_DEPTH as usize];
-        let mut volume = 1;
+        let mut volume = 1u32;
         let mut depth = 0;
         for i in 0..dims.len() {
             assert!(dims[i] != 0);
@@ -28,7 +28,7 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = volume.checked_mul(dims[i]).unwrap();
         }
         Shape {
             dims: dims_filled,
@@ -63,7 +63,7 @@ impl Shape {
     }
 
     pub fn size(&self) -> u32 {
-        self.batch * self.volume()
+        self.batch.checked_mul(self.volume()).unwrap()
     }
 
     pub fn has_batch(&self) -> bool {
@@ -136,7 +136,9 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = (self.volume / self.dims[dim as usize])
+            .checked_mul(m)
+            .unwrap();
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
-- 
2.43.0


From 640648d5c1f3749aae60d5ed52d6b8a1e9324ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 09/16] fix: Tensor::pow broadcasts scalars as Node::pow does

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 62b299b4c2b3c9b0fe11f8d7c9f85fe5c7017911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 10/16] fix: Tensor::replace refuses to take ownership of a
 borrowed buffer

---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..560493a 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -69,6 +69,7 @@ impl<'dev> Tensor<'dev> {
 
     pub fn replace(&mut self, other: Tensor) {
         assert_eq!(self.device, other.device);
+        assert!(other.reference.is_none());
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
-- 
2.43.0


From 489a833a92dbdfb5f5954270925350ff5ff3f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 11/16] fix: backward starts from zeroed gradients and seeds
 only the requested output

---
 prima_undine/src/graph.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..70219fe 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,17 +128,11 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
-        for ret in &op_info.rets {
-            let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
-        }
-    }
+    let start = Rc::clone(&op_info);
     queue.push_back(op_info);
     while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
@@ -148,8 +142,16 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
                 reached.insert(ptr);
             }
         }
+        for ret in &op_info.rets {
+            let mut grad = ret.gradient.borrow_mut();
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
+        }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    start.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +171,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +213,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From fa73c8f0e619819e9bdf0db8884e879d907ccefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 12/16] fix: a tensor that acquires a buffer no longer counts
 as a reference

---
 prima_undine/src/tensor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 560493a..a1f1947 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -51,6 +51,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert!(self.host_values.is_none());
         self.handle = self.device.unwrap().new_handle(self.shape.size());
+        self.reference = None;
     }
 
     pub fn valid(&self) -> bool {
@@ -76,6 +77,7 @@ impl<'dev> Tensor<'dev> {
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
+        self.reference = None;
     }
 
     pub fn device(&self) -> &'dev Device<'dev> {
-- 
2.43.0


From 51d9c60972a78c8fbf267039cd3338e2b586e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 13/16] fix: concatenating shapes panics instead of wrapping
 the extent around

---
 prima_undine/src/shape_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..12b7662 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).unwrap();
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).unwrap();
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From c1406833f5cdd8f4dcef3e274e89c4f103a85edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 14/16] fix: triangular kernels no longer wrap the diagonal
 offset around

---
 prima_undine/src/devices/naive/triangular_l.rs | 6 +++++-
 prima_undine/src/devices/naive/triangular_u.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..b597f0b 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,11 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i as u64 >= j as u64 + k as u64 {
+                            *px.add(p)
+                        } else {
+                            0.
+                        };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..3ee272a 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,11 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j as u64 >= i as u64 + k as u64 {
+                            *px.add(p)
+                        } else {
+                            0.
+                        };
                         p += 1;
                     }
                 }
-- 
2.43.0


From b341e30cb9937369d7ef4ddc1eea9a66365b948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 15/16] fix: writing to a tensor which borrows another one's
 buffer changed the lender

---
 prima_undine/src/device.rs | 4 ++++
 prima_undine/src/tensor.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index c023879..37dafc0 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -60,6 +60,9 @@ impl<'dev> Device<'dev> {
         y: &mut [&mut Tensor],
     ) {
         if let Some(fw) = self.fw_impl.get(name) {
+            for y in y.iter_mut() {
+                y.unshare();
+            }
             fw.call(xs, u32data, f32data, y);
         } else {
             panic!("{} is not implemented", name);
@@ -107,6 +110,7 @@ impl<'dev> Device<'dev> {
         gx: &mut Tensor,
     ) {
         if let Some(bw) = self.bw_impl.get(name) {
+            gx.unshare();
             bw.call(xs, ys, gys, u32data, f32data, gx);
         } else {
             panic!("{} is not implemented", name);
diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index a1f1947..3321f9f 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -80,6 +80,13 @@ impl<'dev> Tensor<'dev> {
         self.reference = None;
     }
 
+    // Gives a tensor which borrows the buffer of another one a buffer of its own.
+    pub(crate) fn unshare(&mut self) {
+        if self.reference.is_some() {
+            *self = self.device().copy_tensor(self);
+        }
+    }
+
     pub fn device(&self) -> &'dev Device<'dev> {
         self.device.unwrap()
     }
-- 
2.43.0


From eb70f0094493b79cd98d366262ad5cff9f87e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 16/16] fix: gradients of powers with a scalar node were NaN
 where the base is zero

---
 prima_undine/src/operators/powf.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 0a0d12d..51de703 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -19,10 +19,10 @@ define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        *gx[0].borrow_mut() += gy[0] * y[0] * x[1].ln();
+        let d = device.powf_scalar_l_fw(&(x[0] - 1.), x[1]);
+        *gx[1].borrow_mut() += (gy[0] * x[0] * d).flatten().sum(0);
     }
 );
 
@@ -30,9 +30,9 @@ define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
-        *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let d = device.powf_scalar_r_fw(x[0], &(x[1] - 1.));
+        *gx[0].borrow_mut() += gy[0] * x[1] * d;
+        *gx[1].borrow_mut() += (gy[0] * y[0] * x[0].ln()).flatten().sum(0);
     }
 );
-- 
2.43.0

