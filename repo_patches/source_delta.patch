From bf52e8f0365db360f86f7978474c8a029656e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/21] fix: bmm gradients with more than 32 elements landed in
 the wrong segment

The segments were cut from the end of the buffer while writers address them from the start.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From a91357b700a144e66dabc127f7cce012b245ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 02/21] fix: the gradient of sum ignored the upstream gradient

---
 src/tensor/autograd/jvp.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..9b1f91e 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,6 +1,6 @@
 use crate::tensor::numeric::*;
 
-use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
+use crate::tensor::{RcTensor, TensorLike, TensorList};
 
 #[derive(Debug, PartialEq, Clone)]
 pub(in crate::tensor) struct Derivative<T: Numeric> {
@@ -74,6 +74,12 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
-    vec![RcTensor::from_raw(raw_tensor)]
+    // every input element receives the upstream gradient of the sum
+    let array = grads[0]
+        .0
+        .array
+        .iter()
+        .flat_map(|&grad| std::iter::repeat(grad).take(length_1))
+        .collect();
+    vec![RcTensor::new(array, vec![length_2, length_1])]
 }
-- 
2.43.0


From 437ee16b091a2c4c361431655252c3343721ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 03/21] fix: the result of sum was created with a gradient of
 its input's shape

---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 5abd1daad3839d2342c41a85b92ba2901974651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 04/21] fix: backward from a one-element abs or bmm and through
 dot panicked

The seed of backward is now a 1x1 jacobian like every other jacobian, and
dot_jvp returns a jacobian row instead of a tensor of the input's shape.
---
 src/tensor/functional/misc.rs | 15 +++++++++++----
 src/tensor/rc_tensor.rs       |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..5db8daa 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -368,9 +368,16 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
     let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
-    vec![left_jvp, right_jvp]
+    // J_left is the flattened right input as a row, and vice versa
+    let outer = |row: RcTensor<T>| {
+        let array = jacobian
+            .array
+            .iter()
+            .flat_map(|&grad| row.array.iter().map(move |&elem| grad * elem))
+            .collect();
+        RcTensor::new(array, vec![jacobian.count(), row.count()])
+    };
+    vec![outer(right), outer(left)]
 }
 
 #[test]
diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 3057609aded749abe4d810d3311d8f96ac471e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 05/21] fix: concurrent gradient updates of one tensor could be
 lost

update_grad read the old gradient under one lock and stored the sum under another.
---
 src/tensor/raw_tensor.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..a191019 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -305,11 +305,19 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
+        // hold the lock from the read to the write: concurrent updates must not be lost
+        let mut slot = self.grad.write().unwrap();
+        let new_grad = match slot.as_ref() {
             None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
+            Some(other_grad) => {
+                if !other_grad.broadcastable(grad.shape()) {
+                    drop(slot); // refuse without poisoning the lock
+                    panic!("gradient has an incompatible shape: {:?}", grad.shape());
+                }
+                Some(other_grad + &grad)
+            }
         };
-        *self.grad.write().unwrap() = new_grad;
+        *slot = new_grad;
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From f31a96ef43185996e8b54cde9e29cbf04797b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 06/21] fix: accumulated gradients kept every earlier
 contribution alive

The sum was recorded as a differentiable operation, so memory grew with every
backward pass and dropping the gradient overflowed the stack.
---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index a191019..7f6d973 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -314,7 +314,8 @@ where
                     drop(slot); // refuse without poisoning the lock
                     panic!("gradient has an incompatible shape: {:?}", grad.shape());
                 }
-                Some(other_grad + &grad)
+                // plain data: do not record the history of accumulations
+                Some(RcTensor::from_raw(functional::add_raw(other_grad, &grad)))
             }
         };
         *slot = new_grad;
-- 
2.43.0


From 69a5fe375f0256016221526b9649de5d9b8225bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 07/21] fix: sgd_step chained new parameters to all earlier
 ones

The new parameters were recorded as computed from the old ones, so each later
backward pass went through all earlier steps, changed the gradients of replaced
parameters, and finally overflowed the stack.
---
 src/optim/sgd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..8b4aaf0 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,9 +33,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
+            // a fresh leaf: must not refer back to the old parameter
+            (p.clone() - &step_size * p.grad()).deep_clone()
         })
         .collect();
     module.update_params(new_params);
-- 
2.43.0


From 23ce627445ae39dd36919b194c64c4dbf70aea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/21] fix: iterating an empty slice or tensor panicked

---
 src/tensor/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..2ac111e 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -38,6 +38,9 @@ where
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.tensor_like.shape().contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             let &elem = self.tensor_like.get(&self.index).unwrap();
@@ -87,6 +90,9 @@ impl IndexIterator {
 impl Iterator for IndexIterator {
     type Item = Vec<usize>;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.dimensions.contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             return Some(self.index.clone());
-- 
2.43.0


From ca6c52405a5968e8074b06ac1023189d925f20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 09/21] fix: scaling a slice used the elements of the whole
 tensor

---
 src/tensor/tensor_like.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..b95e5da 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,8 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for idx in self.iter_indices() {
+            let &elem = self.get(&idx).unwrap();
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +75,8 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for idx in self.iter_indices() {
+            let &elem = self.get(&idx).unwrap();
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 646bc8259dc39046d1d8ce6e5251e5768a67adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 10/21] fix: dot of a slice used the elements of the whole
 tensor

---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 5db8daa..ae30bff 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (x, y) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += x * y;
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From d09831218e2475e9e13466eb783bfd8d6b7af351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 11/21] fix: reading a slice out of bounds panicked instead of
 returning an error

---
 src/tensor/tensor_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..7a3d25d 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -127,8 +127,7 @@ where
     fn get(&self, index: IndexType) -> Result<&T, String> {
         let idx = self
             .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
+            .global_index(index, Some(&self.view.offset))?;
         Ok(&self.tensor.array[idx])
     }
 
-- 
2.43.0


From 64da928bfe5ad237f31cb6ebac13d54a661a03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 12/21] fix: broadcasting a slice of extent one panicked

The broadcast rule looked at the extent of the whole tensor instead of the slice.
---
 src/tensor/utils.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 2ac111e..3cff64d 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -185,8 +185,14 @@ pub(in crate::tensor) fn global_index(
     shape: &[usize],
     offset: Option<&Vec<SliceRange>>,
 ) -> Result<usize, String> {
+    // the start and the extent of an axis as the caller sees it
+    let window = |i: usize| match offset {
+        Some(range_vec) => (range_vec[i].start, range_vec[i].end - range_vec[i].start),
+        None => (0, shape[i]),
+    };
     if index.len() < shape.len() {
-        for &dim in &shape[..shape.len() - index.len()] {
+        for i in 0..shape.len() - index.len() {
+            let (_, dim) = window(i);
             if dim > 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
@@ -200,23 +206,15 @@ pub(in crate::tensor) fn global_index(
     let mut global_idx = 0;
     let mut multiplier = 1;
     // TODO: consider turning this into a fold operation.
-    for (i, (&dim, &idx_dim)) in shape.iter().rev().zip(index.iter().rev()).enumerate() {
+    // axes missing from a shorter index count as 0: they have an extent of one
+    let padded_index = index.iter().rev().chain(std::iter::repeat(&0));
+    for (i, (&dim, &idx_dim)) in shape.iter().rev().zip(padded_index).enumerate() {
         // Fix the indexing.  We need to have all the reverses index may be shorter than shape.
         let i = shape.len() - i - 1;
-        let shaped_dim;
-        let shifted_idx;
-        if dim == 1 {
-            // we pick the 0th element during broadcasting
-            continue;
-        }
-        if let Some(range_vec) = offset {
-            // println!("setting offset: {:?}", range_vec.clone());
-            shaped_dim = range_vec[i].end - range_vec[i].start;
-            shifted_idx = range_vec[i].start + idx_dim;
-        } else {
-            shaped_dim = dim;
-            shifted_idx = idx_dim;
-        }
+        let (start, shaped_dim) = window(i);
+        // we pick the 0th element during broadcasting
+        let idx_dim = if shaped_dim == 1 { 0 } else { idx_dim };
+        let shifted_idx = start + idx_dim;
         if shaped_dim <= idx_dim {
             return Err(format!(
                     "Trying to index too far into the view!
-- 
2.43.0


From b6b2af676a7c6b4b15271e7eaba68141f23dc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 13/21] fix: slicing a slice selected from the whole tensor

---
 src/tensor/tensor_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 7a3d25d..ecbfcd9 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -136,7 +136,7 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
-        TensorView::new(self.tensor(), offset)
+        TensorView::new(self.to_tensor(), offset)
     }
 
     fn bmm<U>(&self, right: &U) -> Self::ResultTensorType<'_>
-- 
2.43.0


From 48a81e53d1f35a33ad5e6a9a25ea29ca42abb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 14/21] fix: a reshaped slice was still indexed with its old
 shape

---
 src/tensor/tensor_view.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index ecbfcd9..0eb5a83 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -68,14 +68,10 @@ where
             self.view.shape.iter().product::<usize>(),
             shape.iter().product::<usize>()
         );
-        TensorView {
-            tensor: self.tensor.clone(),
-            view: View {
-                shape,
-                offset: self.view.offset.clone(),
-            }
-            .into(),
-        }
+        // the window of a reshaped slice is no range per axis, so copy its elements
+        let offset = shape.iter().map(|&dim| SliceRange::new(0, dim)).collect();
+        let array = self.to_tensor().array.clone();
+        TensorView::new(RcTensor::new(array, shape), offset)
     }
 }
 
-- 
2.43.0


From 7c5ad5d1d06b0c0e1e64459b7c8ddeb749196522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 15/21] fix: the gradient of a batched bmm panicked

---
 src/tensor/functional/misc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index ae30bff..94b369c 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -226,6 +226,12 @@ pub(crate) fn bmm_jvp<T: Numeric>(
         jacobians.len()
     );
 
+    // the matrices of a batch share the right input, so treat them as one tall matrix
+    let (inner, outer) = inputs[0].shape().split_last().unwrap();
+    let left_shape = vec![outer.iter().product(), *inner];
+    let left = RcTensor::new(inputs[0].array.clone(), left_shape);
+    let inputs = vec![left, inputs[1].clone()];
+
     assert_eq!(
         inputs[0].shape()[1],
         inputs[1].shape()[0],
-- 
2.43.0


From 360e8ec6f0f6a09bb479bb19aa5693971997e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 16/21] fix: backward of bmm could deadlock when called from
 inside the rayon pool

---
 src/tensor/functional/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 94b369c..17ae59d 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -261,9 +261,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -327,6 +327,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // Consumers block their worker until every producer is done. Inside the pool they would be
+    // started first and could block all workers, so they only start after the producers.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From e52c4ba877e0655d9706b2d1ed5a86b5f02ad262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 17/21] fix: bmm accepted operands of rank four and returned a
 part of the product

---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 17ae59d..f8f6e01 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From f30d0c0bcb996ad73498361068a2eb1ff5b0ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 18/21] fix: a huge index into a slice overflowed instead of
 being reported

---
 src/tensor/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 3cff64d..9683bf6 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -214,7 +214,7 @@ pub(in crate::tensor) fn global_index(
         let (start, shaped_dim) = window(i);
         // we pick the 0th element during broadcasting
         let idx_dim = if shaped_dim == 1 { 0 } else { idx_dim };
-        let shifted_idx = start + idx_dim;
+        let shifted_idx = start.saturating_add(idx_dim);
         if shaped_dim <= idx_dim {
             return Err(format!(
                     "Trying to index too far into the view!
-- 
2.43.0


From da74a517eb1fdd48bbd3b4f04319e65f13beb0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 19/21] fix: adding a tensor with a zero extent to one of
 extent one panicked

---
 src/tensor/functional/element_wise_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..6a4cae0 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -269,7 +269,9 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => max(l, r),
+            // an extent of one stretches to the other one, which may be zero
+            Both(&l, &r) if l == 1 => r,
+            Both(&l, _) => l,
             Left(&l) => l,
             Right(&r) => r,
         };
-- 
2.43.0


From 25a16d3e9f4d513711fb5551cc659ee2fdb60de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 20/21] fix: a shape whose element count overflows was accepted
 in release builds

---
 src/tensor/raw_tensor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 7f6d973..02e8eb3 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -138,9 +138,9 @@ where
     }
 
     pub(in crate::tensor) fn new_empty(shape: Vec<usize>) -> RawTensor<T> {
-        let mut total = 1;
+        let mut total: usize = 1;
         for &dim in shape.iter() {
-            total *= dim;
+            total = total.checked_mul(dim).expect("too many elements");
         }
 
         RawTensor {
@@ -159,9 +159,9 @@ where
                 ..Default::default()
             };
         }
-        let mut total = 1;
+        let mut total: usize = 1;
         for &dim in shape.iter() {
-            total *= dim;
+            total = total.checked_mul(dim).expect("too many elements");
         }
 
         let mut tensor = RawTensor {
@@ -184,9 +184,9 @@ where
     }
 
     pub fn new(array: Vec<T>, shape: Vec<usize>) -> RawTensor<T> {
-        let mut len = 1;
-        for dim in shape.iter() {
-            len *= dim;
+        let mut len: usize = 1;
+        for &dim in shape.iter() {
+            len = len.checked_mul(dim).expect("too many elements");
         }
         assert_eq!(
             len,
-- 
2.43.0


From 8a94fa6c89103622fa3d69ced4a977f52af27a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 21/21] fix: the first explicit gradient was kept with its
 history and identity

---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 02e8eb3..a928e6a 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -308,7 +308,8 @@ where
         // hold the lock from the read to the write: concurrent updates must not be lost
         let mut slot = self.grad.write().unwrap();
         let new_grad = match slot.as_ref() {
-            None => Some(grad),
+            // plain data, as below: a gradient that was computed must not keep its operands alive
+            None => Some(RcTensor::new(grad.array.clone(), grad.shape().clone())),
             Some(other_grad) => {
                 if !other_grad.broadcastable(grad.shape()) {
                     drop(slot); // refuse without poisoning the lock
-- 
2.43.0

