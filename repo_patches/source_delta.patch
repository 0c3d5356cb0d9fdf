From 66b3d52cadb7b2d732b577a9c369c3881b50a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 01/16] fix: stride() threw for every tensor because it
 compared the static type of the layout pointer

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..d03fe58 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,8 +56,8 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
-    return dynamic_cast<StridedLayout *>(view.get())->strides;
+  if (auto view_s = dynamic_cast<StridedLayout *>(view.get())) {
+    return view_s->strides;
   } else {
     throw std::runtime_error("Scalar do not have stride");
   }
-- 
2.43.0


From 1506dc235f254757150d434756e42c5bbd97cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 02/16] fix: randn with f64 wrote doubles into an f32 tensor
 (heap overflow, wrong dtype)

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d03fe58..bccaacb 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -790,7 +790,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From 033a5f85ac8d10e37c14bde19acfb676ecd98990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 03/16] fix: broadcast_range accepted incompatible sizes
 (tautological check), e.g. [0, 3] with [0, 2]

---
 src/INNC/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..b340d1e 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,8 +28,8 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
-                 " are not broadcastable.");
+      run_expect(su == sv || std::min(su, sv) == 1, "Size ", *u, " and Size ",
+                 *v, " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
       ret[dim_u - i] = (*u)[dim_u - i];
-- 
2.43.0


From 95c12dd7ac9871a01d4c8a5c8af5400bef1a9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 04/16] fix: all() read single bytes at element offsets instead
 of elements of the dtype

---
 src/INNC/tensorImpl.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index bccaacb..6102193 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -742,6 +742,25 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
   return create(dtype, view, data_, dlayout);
 }
 
+static bool is_nonzero(const std::uint8_t *ptr, types dtype) {
+  switch (dtype) {
+  case i8:
+    return *reinterpret_cast<const std::int8_t *>(ptr) != 0;
+  case i16:
+    return *reinterpret_cast<const std::int16_t *>(ptr) != 0;
+  case i32:
+    return *reinterpret_cast<const std::int32_t *>(ptr) != 0;
+  case i64:
+    return *reinterpret_cast<const std::int64_t *>(ptr) != 0;
+  case f32:
+    return *reinterpret_cast<const float *>(ptr) != 0;
+  case f64:
+    return *reinterpret_cast<const double *>(ptr) != 0;
+  default:
+    throw std::logic_error("type not available");
+  }
+}
+
 bool TensorImpl::all() const {
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
@@ -760,14 +779,16 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
+        if (!is_nonzero(data_->get_blob() +
+                            cnt_from_index(sv) * INNC::size_of(dtype),
+                        dtype))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
+      return is_nonzero(data_->get_blob() +
+                            cnt_from_index(SizeVec{}) * INNC::size_of(dtype),
+                        dtype);
     }
   } else {
     throw std::logic_error(
-- 
2.43.0


From d0acb5e1ca1c6aa51cc8b3cd4656b10489a40ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 05/16] fix: the gradient of mean() ignored the incoming
 gradient

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 72b5c761419f7e746e6d4972eacfcfcb06b2a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 06/16] fix: abs() of a view indexed a compact result with the
 strides of the view (out of bounds)

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 6102193..9bbe0fb 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 087cde325b6b00ff2a8ca1b92436619e9a668201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 07/16] fix: gradients of views were lost, mixed with other
 contributions or written out of bounds

---
 include/INNC/function.hpp |  1 +
 src/INNC/function.cpp     | 31 ++++++++++++++++++++++++-------
 src/INNC/tensorImpl.cpp   | 20 +++-----------------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 3201c52..f40a95c 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -24,6 +24,7 @@ public:
   void try_accumulate_grad(TensorImpl *tf_grad, TensorImpl *tf_w,
                            TensorImpl *tf_o = nullptr);
   void try_accumulate_update(TensorImpl *tf_grad, bool zero_init = true);
+  void ensure_grad(TensorImpl *tf, bool zero_init = true);
 };
 
 class AddBack : public Backward {
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..5f90f85 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -43,14 +43,23 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
     return;
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
-  if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
+  ensure_grad(tf_prev, zero_init);
+}
+
+// The grad of a tensor mirrors its data: a storage of the same size seen
+// through the same view. So the grad of a view of the tensor can be located in
+// the storage of the tensor's grad.
+void Backward::ensure_grad(TensorImpl *tf, bool zero_init) {
+  if (tf->grad.get() == nullptr) {
+    tf->grad = TensorImpl::create(
+        tf->dtype, tf->view,
+        std::make_shared<UntypedStorage>(tf->data_->get_size(), true));
     if (zero_init)
-      tf_prev->grad->data_->zero_();
-  } else if (!tf_prev->grad->data_->is_alloc()) {
-    tf_prev->grad->data_->alloc();
+      tf->grad->data_->zero_();
+  } else if (!tf->grad->data_->is_alloc()) {
+    tf->grad->data_->alloc();
     if (zero_init)
-      tf_prev->grad->data_->zero_();
+      tf->grad->data_->zero_();
   }
 }
 
@@ -102,7 +111,15 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+void NoBack::step_back() {
+  auto input = input_tfs[0].get();
+  if (!input->requires_grad)
+    return;
+  try_accumulate_update(input);
+  auto grad_view =
+      TensorImpl::create(input->dtype, this_tf->view, input->grad->data_);
+  *grad_view += get_out_grad();
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9bbe0fb..52e686c 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -342,7 +342,9 @@ void TensorImpl::backward() {
   refresh_n_outway(this);
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
-  grad = ones_like(*this);
+  grad.reset();
+  grad_fn->ensure_grad(this);
+  *grad += *create(std::int8_t(1));
   grad_fn->back_version = ++Backward::global_back_version;
   while (!q.empty()) {
     auto t = q.front();
@@ -440,18 +442,6 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -557,7 +547,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       return ret;
     ret->requires_grad = true;
     ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -589,7 +578,6 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
     return ret;
   ret->requires_grad = true;
   ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
   return ret;
 }
 
@@ -654,7 +642,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
   }
 
   bool isometry = true;
@@ -697,7 +684,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     return tf;
   tf->requires_grad = true;
   tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
   return tf;
 }
 
-- 
2.43.0


From d621dc38aa22af0d6a294d1d26e2fd4ff703ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 08/16] fix: backward of a division crashed when one operand
 needs no grad or the divisor is broadcast

---
 include/INNC/ops.hpp  |  2 +-
 src/INNC/function.cpp | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..2f94888 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -380,7 +380,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 5f90f85..3a5a234 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -87,13 +87,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 1e01777685574baba1d0cfa74b09bf06f7e5520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 09/16] fix: max() and min() started from the first stored
 element, not the first element of the view

---
 include/INNC/ops.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 2f94888..2ed8b06 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,16 +245,17 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
   SizeVec max_sv;
-  for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
+  bool found = false;
+  for_each_sizevec(from->view->sizes, [=, &max_sv, &found](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr >= t))
+    if (__LIKELY(found && *to_ptr >= t))
       return;
+    found = true;
     *to_ptr = t;
     max_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(max_sv)) = 1;
 }
@@ -272,16 +273,17 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
   SizeVec min_sv;
-  for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
+  bool found = false;
+  for_each_sizevec(from->view->sizes, [=, &min_sv, &found](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr <= t))
+    if (__LIKELY(found && *to_ptr <= t))
       return;
+    found = true;
     *to_ptr = t;
     min_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(min_sv)) = 1;
 }
-- 
2.43.0


From 32a7176dec631258975f75c7badca290fd00fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 10/16] fix: reshape of a one-element tensor requiring grad
 fell through to the general case (out of bounds for a scalar)

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 52e686c..3ce0267 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -642,6 +642,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From ce61eb2ad90c1293663a1833a3aa68b84caeb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 11/16] fix: reshape accepted negative sizes and overflowing
 products and divided by zero inferring -1

---
 src/INNC/tensorImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 3ce0267..3148971 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -592,6 +592,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
   size_t minus_one_exist = false;
   size_t minus_one_index;
   for (size_t i = 0; i < sizes_.size(); i++) {
+    run_expect(sizes_[i] >= -1, "Invalid size ", sizes_[i], " in reshape.");
     if (sizes_[i] == -1) {
       run_expect(!minus_one_exist,
                  "Cannot have more than two minus ones in size.");
@@ -604,7 +605,8 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0,
+               "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
@@ -619,7 +621,8 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
                     const SizeVec &sizes) {
   size_t numel = 1;
   for (auto i : sizes)
-    numel *= i;
+    run_expect(!__builtin_mul_overflow(numel, i, &numel),
+               "The number of elements of ", sizes, " is too large.");
   if (input->dlayout != layouts::strided)
     throw std::logic_error(
         sformat("This layout %s has not been implemented", layouts::sparse));
-- 
2.43.0


From 48f768c998d93d3c503a6fc44e7ecfbf5fd16069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 12/16] fix: unary minus promoted i8 and i16 tensors to i32

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 3148971..40df079 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From b7e86b6e268bdd98ced4931babb53af53dc21dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:11 +0000
Subject: [PATCH 13/16] fix: cat of an empty list read out of bounds

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 40df079..3734068 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -817,6 +817,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "cat requires at least one tensor");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 09e5feaaa8a570f2d9933b9c84fe1a7f09dd1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:01 +0000
Subject: [PATCH 14/16] fix: define Tensor::dim(), which was declared but had
 no definition

---
 src/INNC/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..8e4a935 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -70,6 +70,8 @@ Tensor Tensor::from_blob(void *data, const SizeVec &sizes, types dtype) {
 
 size_t Tensor::numel() const noexcept { return fptr->numel(); }
 
+size_t Tensor::dim() const noexcept { return fptr->dim(); }
+
 void Tensor::release() noexcept { fptr->release(); }
 
 INNC::types Tensor::type() const { return fptr->type(); }
-- 
2.43.0


From 5dfde7794d1486a4e0a5b604e148441de94b6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:10 +0000
Subject: [PATCH 15/16] fix: reject tensors whose byte size overflows size_t
 instead of allocating too little

---
 src/INNC/tensorImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 3734068..2fa7bd6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -88,9 +88,12 @@ TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
 std::shared_ptr<TensorImpl>
 TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
                    bool prealloc, layouts dlayout) {
+  size_t n_bytes = size_of(dtype);
+  for (auto s : view->sizes)
+    run_expect(!__builtin_mul_overflow(n_bytes, s, &n_bytes),
+               "A tensor of size ", view->sizes, " is too large.");
   auto ptr = create(dtype, view,
-                    std::make_unique<UntypedStorage>(
-                        size_of(dtype) * view->numel(), prealloc),
+                    std::make_unique<UntypedStorage>(n_bytes, prealloc),
                     dlayout);
   if (prealloc)
     ptr->data_->alloc();
-- 
2.43.0


From 8c81e3e68fe348490c77d74449641d2f42b163cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:54 +0000
Subject: [PATCH 16/16] fix: a frozen intermediate tensor blocked the gradients
 of the tensors it was computed from

---
 src/INNC/tensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 2fa7bd6..24a1a08 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -310,7 +310,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (__LIKELY(it->grad_fn.get() != nullptr &&
+      if (__LIKELY(it->requires_grad && it->grad_fn.get() != nullptr &&
                    it->grad_fn->back_version < Backward::global_back_version)) {
         it->grad_fn->back_version = Backward::global_back_version;
         it->grad_fn->n_outway = 0;
@@ -324,7 +324,7 @@ void refresh_n_outway(TensorImpl *tf) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() == nullptr)
+      if (!it->requires_grad || it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
       if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
@@ -356,7 +356,7 @@ void TensorImpl::backward() {
     if (!t->retain_grad)
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
-      if (it->grad_fn.get() != nullptr &&
+      if (it->requires_grad && it->grad_fn.get() != nullptr &&
           it->grad_fn->back_version < Backward::global_back_version &&
           it->grad_fn->is_ready()) {
         it->grad_fn->back_version = Backward::global_back_version;
-- 
2.43.0

