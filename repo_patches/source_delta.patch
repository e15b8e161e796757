From e26a4f7a6cccaaeafabe8275700a3c4506ef2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 01/21] fix: reject incompatible shapes in broadcast_range

The condition was always true, so (0, 2) + (3) was accepted and a failing
+= had already modified part of its left operand.
---
 src/INNC/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..b340d1e 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,8 +28,8 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
-                 " are not broadcastable.");
+      run_expect(su == sv || std::min(su, sv) == 1, "Size ", *u, " and Size ",
+                 *v, " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
       ret[dim_u - i] = (*u)[dim_u - i];
-- 
2.43.0


From 8c3bcb22de85f208f10014b633b0cd07aae4329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 02/21] fix: stride() threw for every tensor

typeid(view) is the static type of the shared_ptr, so the comparison never held.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..144fd20 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,7 +56,7 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
+  if (dlayout == layouts::strided && dim() != 0) {
     return dynamic_cast<StridedLayout *>(view.get())->strides;
   } else {
     throw std::runtime_error("Scalar do not have stride");
-- 
2.43.0


From f4bad2f83e324cb74641b48f79dbaaf24b8944f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 03/21] fix: reshape of a one-element tensor that requires grad

The result was dropped and the general path read strides[-1] of a scalar.
---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 144fd20..069dd78 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -655,6 +655,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From d0b6becf864c569e8b34d05e0a689caf80f66f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 04/21] fix: reject negative sizes and {0, -1} in reshape

reshape({-2, -3}) of six elements was accepted with wrapped sizes, and
reshape({0, -1}) divided by zero.
---
 src/INNC/tensorImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 069dd78..22d089d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -604,6 +604,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
   size_t minus_one_exist = false;
   size_t minus_one_index;
   for (size_t i = 0; i < sizes_.size(); i++) {
+    run_expect(sizes_[i] >= -1, "Illegal size ", sizes_[i], " in ", sizes);
     if (sizes_[i] == -1) {
       run_expect(!minus_one_exist,
                  "Cannot have more than two minus ones in size.");
@@ -616,7 +617,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0, "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From 338b1cda1dc7b99d716c578deb007ffb254a90f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 05/21] fix: randn of f64 allocated an f32 tensor

It overran the allocation and returned the wrong type.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 22d089d..956e2d7 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -792,7 +792,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From 9b0c2a696fe9294334ffed6e5d7021386e33a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 06/21] fix: max and min start from the first element of the
 view

They started from the first element of the storage, which need not belong to
the view, and threw in the grad case when the extremum was the first element.
---
 include/INNC/ops.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..b4fbe1e 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,8 +245,11 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->numel() == 0)
+    return;
   SizeVec max_sv;
+  max_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(max_sv));
   for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr >= t))
@@ -272,8 +275,11 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  if (from->numel() == 0)
+    return;
   SizeVec min_sv;
+  min_sv.resize(from->dim(), 0);
+  *to_ptr = *(from_ptr + from->cnt_from_index(min_sv));
   for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
     if (__LIKELY(*to_ptr <= t))
-- 
2.43.0


From 129909b20908bda922790843424acbae9a4651c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 07/21] fix: all() looked at one byte per element whatever the
 type

---
 src/INNC/tensorImpl.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 956e2d7..d07997b 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -744,6 +744,25 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
   return create(dtype, view, data_, dlayout);
 }
 
+static bool is_nonzero(const void *ptr, types t) {
+  switch (t) {
+  case i8:
+    return *static_cast<const std::int8_t *>(ptr) != 0;
+  case i16:
+    return *static_cast<const std::int16_t *>(ptr) != 0;
+  case i32:
+    return *static_cast<const std::int32_t *>(ptr) != 0;
+  case i64:
+    return *static_cast<const std::int64_t *>(ptr) != 0;
+  case f32:
+    return *static_cast<const float *>(ptr) != 0;
+  case f64:
+    return *static_cast<const double *>(ptr) != 0;
+  default:
+    throw std::logic_error("type not available");
+  }
+}
+
 bool TensorImpl::all() const {
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
@@ -762,14 +781,16 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
+        if (!is_nonzero(data_->get_blob() +
+                            cnt_from_index(sv) * size_of(dtype),
+                        dtype))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
+      return is_nonzero(
+          data_->get_blob() + cnt_from_index(SizeVec{}) * size_of(dtype),
+          dtype);
     }
   } else {
     throw std::logic_error(
-- 
2.43.0


From 6c9994c5ee4a5e487102dae5a5849128edd14127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 08/21] fix: negation keeps the type of its operand

create(char(0)) promotes to the int32_t overload, so -x of i8 or i16 was i32.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d07997b..45d6d22 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From 81e34f2ad1f8daab79be37620984bd735befd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 09/21] fix: the gradient of mean() ignored the gradient of its
 result

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 3de4b9631fac910059d4267c53a2d546dd128f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:06 +0000
Subject: [PATCH 10/21] fix: abs() of a view wrote outside its result

The result reused the offset and strides of the operand with a storage of only
numel elements.
---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 45d6d22..4dfc9d6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 11e8e2e3fbe11fa42dd57d9630ad5f8ccbe8270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 11/21] fix: gradients of views

A view shared the grad storage of its base. So a scalar view used as the root
of backward() left the gradient of the base at zero, the retained gradient of a
view contained what reached the base on other paths, grad() between taking a
view and backward() returned an unallocated tensor, and a leaf that is itself a
view with an offset got a grad storage too small for its layout.
---
 src/INNC/function.cpp   | 16 ++++++++++++++--
 src/INNC/tensorImpl.cpp | 16 ----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..988a8a5 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,7 +44,10 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
+    // laid out like the data, so that a view of the data is one of the grad
+    tf_prev->grad = TensorImpl::create(
+        tf_prev->dtype, tf_prev->view,
+        std::make_shared<UntypedStorage>(tf_prev->data_->get_size()));
     if (zero_init)
       tf_prev->grad->data_->zero_();
   } else if (!tf_prev->grad->data_->is_alloc()) {
@@ -102,7 +105,16 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+void NoBack::step_back() {
+  auto input = input_tfs[0].get();
+  if (!input->requires_grad)
+    return;
+  try_accumulate_update(input);
+  // the part of the gradient of the input that this view looks at
+  auto part =
+      TensorImpl::create(input->dtype, this_tf->view, input->grad->data_);
+  *part += get_out_grad();
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 4dfc9d6..24d57b2 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -440,18 +440,6 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -557,7 +545,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       return ret;
     ret->requires_grad = true;
     ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -589,7 +576,6 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
     return ret;
   ret->requires_grad = true;
   ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
   return ret;
 }
 
@@ -655,7 +641,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
     return tf;
   }
 
@@ -699,7 +684,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     return tf;
   tf->requires_grad = true;
   tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
   return tf;
 }
 
-- 
2.43.0


From ea4174ebdc938907cc0895e6389a3ab9c1fe9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 12/21] fix: gradient of a quotient

backward() dereferenced a null grad when the numerator or the denominator does
not require grad, and wrote out of range when the denominator is broadcast.
---
 include/INNC/ops.hpp  |  2 +-
 src/INNC/function.cpp | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index b4fbe1e..2ca2d47 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -386,7 +386,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 988a8a5..983eb2f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -81,9 +81,13 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (!input_tfs[1]->requires_grad)
+    return;
   try_accumulate_update(input_tfs[1].get());
   native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
                                                        this_tf->type())(
-- 
2.43.0


From c561b93e0e37031ee71162807c3e11733188972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 13/21] fix: an intermediate result with requires_grad(false)
 blocked other paths

It was counted as a path that delivers a gradient, so results it was computed
from never became ready and the gradient reaching them otherwise was lost.
---
 src/INNC/tensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 24d57b2..b7d84d1 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -307,7 +307,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (__LIKELY(it->grad_fn.get() != nullptr &&
+      if (__LIKELY(it->grad_fn.get() != nullptr && it->requires_grad &&
                    it->grad_fn->back_version < Backward::global_back_version)) {
         it->grad_fn->back_version = Backward::global_back_version;
         it->grad_fn->n_outway = 0;
@@ -321,7 +321,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() == nullptr)
+      if (it->grad_fn.get() == nullptr || !it->requires_grad)
         continue;
       ++it->grad_fn->n_outway;
       if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
@@ -351,7 +351,7 @@ void TensorImpl::backward() {
     if (!t->retain_grad)
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() != nullptr &&
+      if (it->grad_fn.get() != nullptr && it->requires_grad &&
           it->grad_fn->back_version < Backward::global_back_version &&
           it->grad_fn->is_ready()) {
         it->grad_fn->back_version = Backward::global_back_version;
-- 
2.43.0


From f547a705e7326371de84464dcf3a76811d1da84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 14/21] fix: cat of no tensors is an error instead of a crash

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index b7d84d1..9ca0dc1 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -813,6 +813,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "There is nothing to cat.");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From fd47b914a123158d912218f90c1de1f0cc42fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 15/21] fix: integer division by zero is an error instead of a
 crash

---
 include/INNC/ops.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 2ca2d47..65813e9 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "INNC/dispatcher.hpp"
+#include "INNC/exceptions.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
 #include "INNC/utils/utils.hpp"
@@ -54,6 +55,9 @@ void tensor_div(TensorImpl *dst, const TensorImpl *l, const TensorImpl *r) {
   auto l_ptr = reinterpret_cast<L *>(l->data_->get_blob());
   auto r_ptr = reinterpret_cast<R *>(r->data_->get_blob());
   for_each_sizevec(dst->view->sizes, [=](const SizeVec &sv) {
+    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>)
+      run_expect(*(r_ptr + r->cnt_from_aug_index(sv)) != 0,
+                 "Integer division by zero.");
     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
         *(l_ptr + l->cnt_from_aug_index(sv)) /
         *(r_ptr + r->cnt_from_aug_index(sv));
-- 
2.43.0


From 51191742bf281cd4bd0f61575f1ba9796874598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 16/21] fix: malformed slices were accepted

"1:2:3:4" ignored its fourth field and "2 3" or "1x:" what follows the number.
---
 src/INNC/tensorImpl.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca0dc1..21ccbc5 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -440,6 +440,13 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
+static long long to_index(const std::string &s) {
+  size_t end;
+  auto ret = std::stoll(s, &end);
+  run_expect(end == s.size(), "'", s, "' is not an index");
+  return ret;
+}
+
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -460,8 +467,9 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           trim_(s);
       } else
         split_slice = {"", "", ""};
+      run_expect(split_slice.size() <= 3, "'", slice, "' is not a slice");
       if (split_slice.size() == 1) { // like a[-2]
-        long long idx = std::stoll(split_slice[0]);
+        long long idx = to_index(split_slice[0]);
         if (idx < 0)
           idx += sizes[dim];
         run_expect(idx >= 0 && idx < static_cast<long long>(sizes[dim]),
@@ -478,12 +486,12 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           split_slice.push_back("");
         long long step, beg, end;
         if (split_slice[2].size() != 0) {
-          step = stoll(split_slice[2]);
+          step = to_index(split_slice[2]);
           run_expect(step != 0, "slice step cannot be zero");
         } else
           step = 1;
         if (split_slice[0].size() != 0) {
-          beg = stoll(split_slice[0]);
+          beg = to_index(split_slice[0]);
           if (beg < 0)
             beg += sizes[dim];
           if (beg < 0) {
@@ -506,7 +514,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
         } else
           beg = step > 0 ? 0 : sizes[dim] - 1;
         if (split_slice[1].size() != 0) {
-          end = stoll(split_slice[1]);
+          end = to_index(split_slice[1]);
           if (end < 0)
             end += sizes[dim];
           if (step > 0) {
-- 
2.43.0


From 279e212f44d58ef091c86401c73f76fd74cd2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:25 +0000
Subject: [PATCH 17/21] fix: a malformed part of a slice was accepted when the
 selection is empty

a["1:2x"] on a dimension of size 1 and a["::0"] on one of size 0 were
not rejected because the rest of the slice was not looked at.
---
 src/INNC/tensorImpl.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 21ccbc5..fa64b8f 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -477,21 +477,22 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
                    " with size ", sizes[dim]);
         _offset += strides[dim] * idx;
       } else { // like a[-2:]
+        for (int i = split_slice.size(); i < 3; ++i)
+          split_slice.push_back("");
+        long long step = 1, beg = 0, end = 0;
+        if (split_slice[0].size() != 0)
+          beg = to_index(split_slice[0]);
+        if (split_slice[1].size() != 0)
+          end = to_index(split_slice[1]);
+        if (split_slice[2].size() != 0)
+          step = to_index(split_slice[2]);
+        run_expect(step != 0, "slice step cannot be zero");
         if (sizes[dim] == 0) {
           _sizes.push_back(0);
           _strides.push_back(0);
           continue;
         }
-        for (int i = split_slice.size(); i < 3; ++i)
-          split_slice.push_back("");
-        long long step, beg, end;
-        if (split_slice[2].size() != 0) {
-          step = to_index(split_slice[2]);
-          run_expect(step != 0, "slice step cannot be zero");
-        } else
-          step = 1;
         if (split_slice[0].size() != 0) {
-          beg = to_index(split_slice[0]);
           if (beg < 0)
             beg += sizes[dim];
           if (beg < 0) {
@@ -514,7 +515,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
         } else
           beg = step > 0 ? 0 : sizes[dim] - 1;
         if (split_slice[1].size() != 0) {
-          end = to_index(split_slice[1]);
           if (end < 0)
             end += sizes[dim];
           if (step > 0) {
-- 
2.43.0


From 739ac58419a66250673302af6fb58ad90d5ed8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 18/21] fix: dividing the smallest integer by -1 crashed the
 process

---
 include/INNC/ops.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 65813e9..500a321 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -55,9 +55,17 @@ void tensor_div(TensorImpl *dst, const TensorImpl *l, const TensorImpl *r) {
   auto l_ptr = reinterpret_cast<L *>(l->data_->get_blob());
   auto r_ptr = reinterpret_cast<R *>(r->data_->get_blob());
   for_each_sizevec(dst->view->sizes, [=](const SizeVec &sv) {
-    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>)
-      run_expect(*(r_ptr + r->cnt_from_aug_index(sv)) != 0,
-                 "Integer division by zero.");
+    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>) {
+      using Common = innc_common_t<L, R>;
+      auto divisor = *(r_ptr + r->cnt_from_aug_index(sv));
+      run_expect(divisor != 0, "Integer division by zero.");
+      if (divisor == -1) { // dividing the smallest integer by -1 would trap
+        *(dst_ptr + dst->cnt_from_aug_index(sv)) = static_cast<Common>(
+            std::uint64_t{0} - static_cast<std::uint64_t>(
+                                   *(l_ptr + l->cnt_from_aug_index(sv))));
+        return;
+      }
+    }
     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
         *(l_ptr + l->cnt_from_aug_index(sv)) /
         *(r_ptr + r->cnt_from_aug_index(sv));
-- 
2.43.0


From e9ecc45c5aa88f7b68c3a286c73c44745447bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 19/21] fix: releasing a long chain of results overflowed the
 stack

---
 src/INNC/function.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 983eb2f..05e4219 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -17,7 +17,19 @@ Backward::Backward(
     : input_tfs(input_tfs), this_tf(this_tf), n_outway(0),
       accumulated_n_outway(0), back_version(0) {}
 
-Backward::~Backward() = default;
+Backward::~Backward() {
+  // a long chain of results is released one by one, not recursively
+  auto todo = std::move(input_tfs);
+  while (!todo.empty()) {
+    auto t = std::move(todo.back());
+    todo.pop_back();
+    if (t.use_count() == 1 && t->grad_fn) {
+      for (auto &i : t->grad_fn->input_tfs)
+        todo.push_back(std::move(i));
+      t->grad_fn->input_tfs.clear();
+    }
+  }
+}
 
 void tensor_mul_add_f(TensorImpl &dst, TensorImpl &tf1, TensorImpl &tf2) {
   apply_no_grad_binary_op<native::tensor_mul_acc_f_helper>(dst, tf1, tf2);
-- 
2.43.0


From 3dc874512332035a4e401d179b47df39c17ed7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 20/21] fix: Tensor::dim was declared but not defined

---
 src/INNC/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..8e4a935 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -70,6 +70,8 @@ Tensor Tensor::from_blob(void *data, const SizeVec &sizes, types dtype) {
 
 size_t Tensor::numel() const noexcept { return fptr->numel(); }
 
+size_t Tensor::dim() const noexcept { return fptr->dim(); }
+
 void Tensor::release() noexcept { fptr->release(); }
 
 INNC::types Tensor::type() const { return fptr->type(); }
-- 
2.43.0


From 6304899116168200d982cb3551e65fbd8fbb9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:40 +0000
Subject: [PATCH 21/21] fix: shapes whose number of elements overflows were
 accepted

---
 src/INNC/layouts.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/INNC/layouts.cpp b/src/INNC/layouts.cpp
index fd9677c..d74a1b4 100644
--- a/src/INNC/layouts.cpp
+++ b/src/INNC/layouts.cpp
@@ -3,6 +3,8 @@
 #include "INNC/storage.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
+#include <cstddef>
+#include <limits>
 
 namespace INNC {
 
@@ -10,9 +12,23 @@ std::string to_string(layouts l) { return layout_to_string_aux_arr[l]; }
 
 Layout::Layout() : sizes{} {}
 
-Layout::Layout(const SizeVec &sizes) : sizes(sizes) {}
+// The number of bytes of a tensor has to be representable.
+static void check_numel(const SizeVec &sizes) {
+  size_t rest = std::numeric_limits<std::ptrdiff_t>::max() / sizeof(double);
+  for (auto s : sizes)
+    if (s == 0)
+      return;
+  for (auto s : sizes) {
+    rest /= s;
+    run_expect(rest > 0, "The shape ", sizes, " has too many elements.");
+  }
+}
 
-Layout::Layout(SizeVec &&sizes) : sizes(std::move(sizes)) {}
+Layout::Layout(const SizeVec &sizes) : sizes(sizes) { check_numel(sizes); }
+
+Layout::Layout(SizeVec &&sizes) : sizes(std::move(sizes)) {
+  check_numel(this->sizes);
+}
 
 Layout::~Layout() = default;
 
-- 
2.43.0

