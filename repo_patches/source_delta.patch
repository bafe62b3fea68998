From 3a53ba13110f82a950b92eb93431351b85e205ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 01/64] fix: let RaggedTensor.to() accept a positional dtype

The overload taking a py::object came first and accepted everything, so the
documented a.to(torch.float64) failed with 'Invalid device string'.
---
 k2/python/csrc/torch/v2/any.cu | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..efda366 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -177,6 +177,13 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // It has to come before the overload taking a py::object, which accepts
+  // any positional argument.
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -190,11 +197,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From c456f8e448d3becab3475b99f1b0d5197029ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 02/64] fix: index a RaggedTensor with a one-element tensor as
 with any 1-D tensor

A tensor with a single element converts to an int, and the int overload of
__getitem__ came first: a[torch.tensor([i])] gave the i-th sublist instead of
a ragged tensor holding it.
---
 k2/python/csrc/torch/v2/any.cu | 41 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index efda366..e89337f 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,6 +91,28 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  // It has to come before the overload taking an int32_t, which accepts any
+  // tensor with a single element.
+  any.def(
+      "__getitem__",
+      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
+        // key is a 1-d torch tensor with dtype torch.int32
+        if (key.dim() == 0) throw py::reference_cast_error();  // next overload
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return RaggedAny(ans.Generic());
+        });
+        // Unreachable code
+        return {};
+      },
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
@@ -132,25 +154,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From ed4158d68fae40b555032e2aa3dc2e71ffea049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 03/64] fix: empty slice of a ragged tensor with fewer values
 than sublists

Arange() gave begin as the position in the values, which is out of range when
begin exceeds the number of values: RaggedTensor([[], []])[1:1] failed.
---
 k2/csrc/ragged_ops.cu | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..fd75f2d 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1861,9 +1861,12 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
 
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
-    // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // any empty range will do, as long as it is inside src.values (begin is
+    // an index into axis `axis`, which may have more elements than src.values)
+    if (value_range != nullptr) {
+      int32_t pos = std::min(begin, src.NumElements());
+      *value_range = std::make_pair(pos, pos);
+    }
     return ans;
   }
 
-- 
2.43.0


From 27a80593a941d2443a0fcc347633584d8cdc5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 04/64] fix: check the index in RaggedTensor.__getitem__ for
 two axes

An index out of range read past the end of row_splits; it could fail, or
return values of another sublist.
---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index e89337f..685691c 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -122,6 +122,8 @@ void PybindRaggedAny(py::module &m) {
         } else {
           DeviceGuard guard(self.any.Context());
           K2_CHECK_EQ(self.any.NumAxes(), 2);
+          K2_CHECK_GE(i, 0);
+          K2_CHECK_LT(i, self.any.Dim0());
           Array1<int32_t> row_split = self.any.RowSplits(1).To(GetCpuContext());
           const int32_t *row_split_data = row_split.Data();
           int32_t begin = row_split_data[i], end = row_split_data[i + 1];
-- 
2.43.0


From 50114450f4beeb881920f5d40cd1ebee98337c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 05/64] fix: RaggedTensor from a list whose first sublist is an
 empty one

[ [], [[1]] ] was refused although the code means to accept it (as it does
[ [[1]], [] ]): the empty list was taken for the level that has the values.
---
 k2/python/csrc/torch/v2/ragged_any.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index df685e4..ba6d13e 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -112,7 +112,7 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
                             row_splits, elems);
     }
   } else {
-    if (*deepest_level == -1) {
+    if (data.size() > 0 && *deepest_level == -1) {
       *deepest_level = *cur_level;
     } else if (data.size() > 0 && *deepest_level != *cur_level) {
       // Handle the case for [ [2], [[1]] ]
-- 
2.43.0


From 9777648f41f0a2bcaa80ce49334f616d238cf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 06/64] fix: backward of RaggedTensor.normalize() for a strided
 output gradient

---
 k2/python/csrc/torch/v2/autograd/normalize.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/autograd/normalize.h b/k2/python/csrc/torch/v2/autograd/normalize.h
index db890a1..68bbdd7 100644
--- a/k2/python/csrc/torch/v2/autograd/normalize.h
+++ b/k2/python/csrc/torch/v2/autograd/normalize.h
@@ -90,6 +90,8 @@ class NormalizeFunction : public torch::autograd::Function<NormalizeFunction> {
     torch::Tensor out_data_tensor = saved[2];
 
     torch::Tensor out_grad = grad_outputs[0];
+    // Only a stride of 0 (e.g., from sum()) is handled specially below
+    if (out_grad.strides()[0] != 0) out_grad = out_grad.contiguous();
     ContextPtr context = GetContext(out_grad);
 
     RaggedShape shape = RaggedShape2(&row_splits, &row_ids, row_ids.Dim());
-- 
2.43.0


From 9a128b34046a0ea77276bd6671efeae74e8b367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 07/64] fix: accept a one-element tensor with any stride in
 FromTorch

---
 k2/csrc/torch_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..a53d7a8 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -121,7 +121,9 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // The same holds for a tensor with one element (e.g., a column of a matrix
+  // with one row), which is contiguous whatever its stride.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 650552e56481ab3e63914af0d9a976ce583dafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 08/64] fix: backward of get_forward/backward_scores() for an
 expanded or strided output gradient

---
 k2/python/k2/autograd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 5d62b47..cc36b36 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -186,7 +186,8 @@ class _GetForwardScoresFunction(torch.autograd.Function):
                                  log_semiring=log_semiring,
                                  entering_arcs=entering_arcs,
                                  forward_scores=forward_scores,
-                                 forward_scores_deriv=forward_scores_grad)
+                                 forward_scores_deriv=
+                                 forward_scores_grad.contiguous())
 
         return (
             None,  # fsas
@@ -257,7 +258,8 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
                                  entering_arc_batches=entering_arc_batches,
                                  log_semiring=log_semiring,
                                  backward_scores=backward_scores,
-                                 backward_scores_deriv=backward_scores_grad)
+                                 backward_scores_deriv=
+                                 backward_scores_grad.contiguous())
 
         return (
             None,  # fsas
-- 
2.43.0


From a1f296a1ce0db1ef1352675b772d566bf72a7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 09/64] fix: union of FSAs some of which have no arcs

---
 k2/csrc/fsa_algo.cu | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..d435306 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,17 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // Add a new arc from the new start state to the start state of every fsa.
+  //
+  // It is done per fsa and not per arc since an fsa may contain no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_set_start_arcs, (int32_t fsas_idx0)->void {
+        int32_t state_offset = 1 - fsas_idx0;
+        Arc arc(0, fsas_row_splits1_data[fsas_idx0] + state_offset, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From f688c4ec49abf09f523b93e85955414205e8d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 10/64] fix: closure of an FSA without arcs

---
 k2/csrc/fsa_algo.cu | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index d435306..fcdc85f 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1404,7 +1404,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1424,12 +1423,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
 
   K2_EVAL(
       c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
-
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1447,22 +1440,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
@@ -1471,6 +1448,17 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  // Add the new arc just after the last arc of the original start state.
+  //
+  // Note that the start state, or even the whole fsa, may have no arcs.
+  K2_EVAL(
+      c, 1, lambda_set_new_arc, (int32_t i)->void {
+        int32_t new_arc_idx01 = fsa_row_splits_data[1];
+        out_arcs_data[new_arc_idx01] = Arc(0, fsa_final_state, -1, 0.0f);
+        out_row_ids_data[new_arc_idx01] = 0;
+        tmp_arc_map_data[new_arc_idx01] = -1;
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From 7ff0b4fdbfe01b53d13b0e16f94828157d8a7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 11/64] fix: index_select of an empty tensor with -1 gives
 default values

---
 k2/python/csrc/torch/index_select.cu | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..39f3743 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,10 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, every index has to be -1.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +124,11 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.sizes()[0] == 0)
+  if (index_array.Dim() == 0)
     return torch::empty({0, src.sizes()[1]}, src.options());
+  // If src is an empty tensor, every index has to be -1.
+  if (src.sizes()[0] == 0)
+    return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From 1259f0bf8b1c7700f74843f27520a2ebfcbdc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 12/64] fix: aux_labels of the closure when the first arc of
 state 1 is final

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..6c44013 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -858,7 +858,7 @@ def closure(fsa: Fsa) -> Fsa:
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
+        minus_one_index[minus_one_index >= src_start_state_last_arc_index] += 1
 
         # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-- 
2.43.0


From c08296b120c6cf1240f2d66ffe1a58da59d1fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 13/64] fix: connect() of an FSA with isolated cycles

---
 k2/python/k2/fsa_algo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 6c44013..6a57bb2 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,7 +519,10 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
-    if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
+    # ACCESSIBLE and COACCESSIBLE are only hints for an FSA with cycles, e.g.,
+    # they hold for states that can be reached only from each other.
+    if fsa.properties & fsa_properties.TOPSORTED != 0 and \
+            fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
             fsa.properties & fsa_properties.COACCESSIBLE != 0:
         return fsa
 
-- 
2.43.0


From decaecb8d36891ce060a13d2e062d4d2a672e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 14/64] fix: integer attributes with remove_filler=False in
 fsa_from_unary_function_ragged

---
 k2/python/k2/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..61eaaa2 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -497,15 +497,14 @@ def fsa_from_unary_function_ragged(src: Fsa,
     dest = Fsa(dest_arcs)
 
     for name, value in src.named_tensor_attr(include_scores=False):
-        if remove_filler and isinstance(value, torch.Tensor) and \
-           value.dtype == torch.int32:
+        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
             filler = src.get_filler(name)
             # when removing fillers for `aux_labels`, we need to treat -1 as a
             # filler where it is on a final-arc (i.e. turn it into the actual
             # filler, so it will be later removed by remove_values_eq).  We
             # assume that `dest` has been checked for validity, so the presence
             # of -1 as the label precisely indicates final-arcs.
-            if filler != -1:
+            if remove_filler and filler != -1:
                 value = value.clone()
                 if hasattr(torch, 'logical_and'):
                     # torch.logical_and requires torch>=1.5.0
@@ -518,7 +517,9 @@ def fsa_from_unary_function_ragged(src: Fsa,
             # Since value.dtype is torch.int32, the resulting attr
             # is a ragged tensor also with dtype torch.int32
             new_value = k2.ragged.index(value, arc_map, default_value=filler)
-            setattr(dest, name, new_value.remove_values_eq(filler))
+            if remove_filler:
+                new_value = new_value.remove_values_eq(filler)
+            setattr(dest, name, new_value)
         else:
             # at this point, value can be either
             # (1) a torch.tensor with dtype other than torch.int32
-- 
2.43.0


From 2d0a50ebb35f719e898224b72e2ab66ac64efa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 15/64] fix: NaN scores in remove_epsilon() of an FSA with
 unreachable states

---
 k2/csrc/host/rmepsilon_pruned.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/csrc/host/rmepsilon_pruned.cc b/k2/csrc/host/rmepsilon_pruned.cc
index e7db5e2..389d14a 100644
--- a/k2/csrc/host/rmepsilon_pruned.cc
+++ b/k2/csrc/host/rmepsilon_pruned.cc
@@ -5,6 +5,7 @@
  */
 
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <memory>
 #include <queue>
@@ -208,6 +209,10 @@ void EpsilonsRemoverPruned<TracebackState>::GetSizes(
   for (int32_t i = 0; i != num_states_in; ++i) {
     if (non_eps_in[i] != 1) continue;
     arc_indexes_.push_back(arc_num_out);
+    // Arcs leaving a state that is not reachable from the start state are on no
+    // path; their scores, being differences of forward weights, would be NaN.
+    if (forward_state_weights[i] == -std::numeric_limits<double>::infinity())
+      continue;
     int32_t curr_state_out = state_map[i];
 
     // as the input FSA is top-sorted, we use a set here so we can process
-- 
2.43.0


From 6aee5841dadcb278338be7d0ea9b1e36b28fc920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 16/64] fix: determinize() of an FsaVec

---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index fcdc85f..3f899ec 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From c3663ded8c9087a1acc6a660b893ac37d2c975d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 17/64] fix: closure of an FST without states

---
 k2/python/k2/fsa_algo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 6a57bb2..5db86f8 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -858,6 +858,10 @@ def closure(fsa: Fsa) -> Fsa:
         Returns:
           The aux_labels of the output fsa after converting -1 to 0.
         '''
+        if src_row_splits1.numel() < 2:
+            # the FSA has no states; its closure is itself
+            return src_aux_labels
+
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-- 
2.43.0


From 8669f060299c6b677fc98b85548ceb0ace5b5524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 18/64] fix: linear_fst() of an empty sequence

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 5db86f8..1975243 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -118,7 +118,7 @@ def linear_fst(labels: Union[List[int], List[List[int]]],
       A vector of FSTs (FsaVec) if the input is a list of list of integers.
     '''
     ragged_arc = _k2.linear_fsa(labels)
-    if isinstance(labels[0], List):
+    if len(labels) > 0 and isinstance(labels[0], List):
         assert isinstance(aux_labels[0],
                           list), 'aux_labels and labels do not match.'
         buf = []
-- 
2.43.0


From 3469483d284c3dfb10c039737c170927459e1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 19/64] fix: expand_ragged_attributes() of other attributes
 than ragged aux_labels

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 1975243..ad05877 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1105,7 +1105,7 @@ def expand_ragged_attributes(fsas: Fsa,
     k2.autograd_utils.phantom_index_select_scores(dest, fsas.scores, arc_map)
 
     # Make sure -1's are only on final-arcs, and never on non-final arcs.
-    if hasattr(dest, 'aux_labels'):
+    if isinstance(getattr(dest, 'aux_labels', None), torch.Tensor):
         _k2.fix_final_labels(dest.arcs, dest.aux_labels)
 
     if ret_arc_map:
-- 
2.43.0


From f4ad60d603f57ace1e1c7c045636e7b4c10a979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 20/64] fix: OpenFst reader accepts arc lines whose cost is
 omitted

The cost of an acceptor arc may be left out, but a line ending right after
the label set eofbit and was taken for a malformed final-state line.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..482e6f9 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
-- 
2.43.0


From b741d9f3b0223da61e196fac388be74e337347bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 21/64] fix: k2 text reader accepts ragged labels written with
 spaces

The printer writes lists as [ 1 2 ], but the reader did not skip the space
before the closing bracket, so printed machines could not be read back.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 482e6f9..375ab0f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From ebb831ca1016bbcc63f3f99b9319a1b3b1295368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 22/64] fix: refused label assignments no longer leave stale
 properties

If fix_final_labels() raised, the machine kept its new (invalid) labels
together with the cached properties of the old ones.
---
 k2/python/k2/fsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..3b5ad20 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -400,13 +400,15 @@ class Fsa(object):
             assert value.device == self.device
             if name == 'labels':
                 assert value.dtype == torch.int32
+                # The old properties do not describe the new labels, even if
+                # those turn out to be invalid below.
+                self.__dict__['_properties'] = None
                 self.arcs.values()[:, 2] = value
                 self.labels_version = self._tensor_attr["labels"]._version
                 # fix_final_labels() will change 0's to -1's and vice versa to
                 # ensure that constraints on where final-labels should appear,
                 # are satisfied.
                 _k2.fix_final_labels(self.arcs, None)
-                self.__dict__['_properties'] = None
                 # access self.properties which will do a validity check on the
                 # modified FSA after getting the properties
                 self.properties
-- 
2.43.0


From 1664c84102bb27cd66f5a3b2538ef0966767b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 23/64] fix: k2 text reader accepts arc lines without score

The score is optional, but a line ending right after the last label made
the extra std::ws set failbit, so the line was rejected.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 375ab0f..33e7082 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -139,7 +139,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       line_is >> score;
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From 472026dcc8a32c7635eab640013021d39f30ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 24/64] fix: an attribute reassigned with another kind of value
 replaces the old one

Assigning a non-tensor value to a name that held a tensor left the tensor in
place and visible (and vice versa left the old value in the other table).
---
 k2/python/k2/fsa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 3b5ad20..2997a68 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -415,6 +415,7 @@ class Fsa(object):
                 return
 
             self._tensor_attr[name] = value
+            self._non_tensor_attr.pop(name, None)
 
             if name == 'scores':
                 assert value.dtype == torch.float32
@@ -428,8 +429,11 @@ class Fsa(object):
             # See https://github.com/k2-fsa/k2/issues/1120
             assert value.device == self.device, (value.device, self.device)
             self._tensor_attr[name] = value
+            self._non_tensor_attr.pop(name, None)
         else:
+            assert name not in ('scores', 'labels')
             self._non_tensor_attr[name] = value
+            self._tensor_attr.pop(name, None)
 
     @property
     def num_arcs(self) -> int:
-- 
2.43.0


From 141eef466b6620abb5ba35c3511022fec8c23f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 25/64] fix: renaming 'scores' gives an attribute independent
 of the arcs

The new attribute could share memory with the arcs, so that a later
assignment to fsa.scores changed it as well.
---
 k2/python/k2/fsa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 2997a68..9e52921 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -898,7 +898,8 @@ class Fsa(object):
         assert src_name in self._tensor_attr or src_name == 'labels'
         try:
             value = getattr(self, src_name)
-            if src_name == 'labels':
+            if src_name in ('labels', 'scores'):
+                # These may share memory with self.arcs.
                 value = value.clone()
             setattr(self, dest_name, value)
             if src_name != 'scores' and src_name != 'labels':
-- 
2.43.0


From 7083cc949a213c61b4ce5463ec8a2d81a74e92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 26/64] fix: FSAs selected from an FsaVec do not share their
 arcs with it

Assigning scores or labels of fsa_vec[i] silently changed the arcs of
fsa_vec, leaving its scores attribute and cached quantities stale.
---
 k2/python/k2/fsa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 9e52921..1fa2e39 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -1035,7 +1035,8 @@ class Fsa(object):
         ragged_arc, start = self.arcs.index(0, i)
         end = start + ragged_arc.values().shape[0]
 
-        out_fsa = Fsa(ragged_arc)
+        # Copy the arcs, so that editing the selected FSA leaves `self` alone.
+        out_fsa = Fsa(ragged_arc.clone())
         for name, value in self.named_tensor_attr(include_scores=False):
             if isinstance(value, torch.Tensor):
                 setattr(out_fsa, name, value[start:end])
-- 
2.43.0


From 89a66dd2230b14395a64c128e61f45ce57c63f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 27/64] fix: NaN smoothed RNN-T loss when lm_only_scale +
 am_only_scale is 1

---
 k2/python/k2/rnnt_loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..ed205d5 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1684,6 +1684,8 @@ def get_rnnt_logprobs_smoothed(
         lm_only_scale = 1.0e-20
     if am_only_scale == 0.0:
         am_only_scale = 1.0e-20
+    if combined_scale == 0.0:
+        combined_scale = 1.0e-20
 
     px_interp = (
         px * combined_scale
-- 
2.43.0


From abf25443981040ca62e143a91ed86fcadb379745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 28/64] fix: get_rnnt_prune_ranges() for a batch without
 symbols

---
 k2/python/k2/rnnt_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index ed205d5..67408c1 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -717,8 +717,9 @@ def get_rnnt_prune_ranges(
         s_range = S + 1
 
     if is_regular:
+        # with S == 0 the only path emits no symbol, so s_range == 1 is enough.
         assert (
-            s_range >= 2
+            s_range >= 2 or S == 0
         ), f"""Pruning range for standard RNN-T should be equal to or greater
         than 2, or no valid paths could survive pruning. Given {s_range}"""
     else:
-- 
2.43.0


From d66b8783ecb0b7d42853ea02416d5113521f3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 29/64] fix: SymbolTable refuses a table whose epsilon symbol
 has a nonzero id

Previously the symbol was mapped to two ids at the same time.
---
 k2/python/k2/symbol_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..90a4a60 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,7 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From be79fc748227d8f3179a542d30ea0341bbc97806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 30/64] fix: SymbolTable.add refuses a negative id

The constructor, and hence loading and merging, refuse such a table.
---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 90a4a60..dcba027 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -182,6 +182,9 @@ class SymbolTable(Generic[Symbol]):
         # Specific ID not provided - use next available.
         if index is None:
             index = self._next_available_id
+        if index < 0:
+            raise ValueError(f"Cannot assign negative id '{index}' "
+                             f"to '{symbol}'")
         # Specific ID provided but not available.
         if index in self._id2sym:
             raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
-- 
2.43.0


From bcf63bfe9888082e4a2def4c624140f8d04be614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 31/64] fix: comparing symbol tables with different symbols
 raised KeyError

---
 k2/python/k2/symbol_table.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index dcba027..7753881 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -267,11 +267,7 @@ class SymbolTable(Generic[Symbol]):
         if len(self) != len(other):
             return False
 
-        for s in self.symbols:
-            if self[s] != other[s]:
-                return False
-
-        return True
+        return self._sym2id == other._sym2id
 
     @property
     def ids(self) -> List[int]:
-- 
2.43.0


From b1421f1cf34150e75d55b7ac9747d4b9109e1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 32/64] fix: SymbolTable.to_file writes UTF-8, which is what
 from_file reads

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7753881..8073854 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -159,7 +159,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From 5ec0578d7ee8d4ff966f868361ceadf20604c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 33/64] fix: swoosh of a 0-dimensional tensor returned shape
 [1] without grad

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 02abcd9..8fafbec 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -154,7 +154,7 @@ class SwooshFunction
     x = x.to(torch::kFloat32);
 
     if (!requires_grad) {
-      torch::Tensor zero = torch::zeros({1}, x.options());
+      torch::Tensor zero = torch::zeros({}, x.options());
       return torch::logaddexp(zero, x - kShift) - kCoeff * x - kOffset;
     }
 
-- 
2.43.0


From fa28d4031ab327e091a1bb8f2d7e08d451fde586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 34/64] fix: swoosh backward read out of bounds for a last
 dimension of size 1

The gradient is contiguous; the stride of a dimension of size 1 may still be
any number (e.g. 4 for the transpose of a tensor of shape (1, 4)), and a
0-dimensional tensor has no last dimension.
---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 8fafbec..176dc4c 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -234,7 +234,6 @@ class SwooshFunction
     torch::Tensor out_grad = y_grad[0];
     out_grad = out_grad.contiguous();
 
-    int32_t stride = out_grad.stride(-1);
     const float *out_grad_data = out_grad.data_ptr<float>();
 
     auto context = GetContext(out_grad);
@@ -248,7 +247,7 @@ class SwooshFunction
     float coeff = kCoeff;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
-          float oi = out_grad_data[i * stride];
+          float oi = out_grad_data[i];
           float gi = g_data[i];  // cast uint8_t to float
           float ii = 1;
           float fi = 1;  // functional grad
-- 
2.43.0


From 5a66057680cebb8280a7882dc52e09a4cc3fcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 35/64] fix: intersect_dense used other frames' scores for
 symbols not in the output

A symbol equal to the number of columns, and in FormatOutput any symbol beyond
them, was given a score of the next frame (or one read out of bounds).
---
 k2/csrc/intersect_dense.cu | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index fbb53ca..194641c 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -403,6 +403,8 @@ class MultiGraphDenseIntersect {
     CompressedArc *carcs_data = carcs_.Data();
     int32_t scores_stride = b_fsas_.scores.ElemStride0();
     const float *scores_data = b_fsas_.scores.Data();
+    int32_t scores_num_cols = b_fsas_.scores.Dim1();
+    const float minus_inf = -std::numeric_limits<float>::infinity();
 
     auto lambda_set_keep = [=] __host__ __device__(
         int32_t arc_idx0123, int32_t ans_state_idx012) -> bool {
@@ -425,7 +427,10 @@ class MultiGraphDenseIntersect {
           int32_t a_fsas_dest_state_idx1 = carc.dest_state;
           int32_t scores_index = fsa_info.scores_offset +
                                  (scores_stride * t_idx1) + carc.label_plus_one;
-          float arc_score = carc.score + scores_data[scores_index];
+          // the symbol may not exist in the neural-net output, see UpdateScores
+          float arc_score = carc.label_plus_one < scores_num_cols
+                                ? carc.score + scores_data[scores_index]
+                                : minus_inf;
 
           // unpruned_src_state_idx and unpruned_dest_state_idx are into
           // `renumber_states.Keep()` or `renumber_states.Old2New()`
@@ -819,7 +824,7 @@ class MultiGraphDenseIntersect {
           // graph (a_fsas) does not exist in the neural-net output (b_fsas).
           float b_score_forward;
           float b_score_backward;
-          if (carc.label_plus_one <= scores_num_cols) {
+          if (carc.label_plus_one < scores_num_cols) {
             b_score_forward = scores_data[fsa_info.scores_offset +
                                           (scores_stride * (t - 1)) +
                                           carc.label_plus_one];
-- 
2.43.0


From d7b0c0646d6364fd198cedb3f65f3f81ae75b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 36/64] fix: get_best_matching_stats crashed for tokens without
 elements

The outputs were left unallocated, and converting them to tensors crashed.
---
 k2/csrc/nbest.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 30244f2..de7489c 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -606,25 +606,25 @@ void GetBestMatchingStats(Ragged<int32_t> &tokens,
 
   int32_t num_elements = tokens.NumElements();
   K2_CHECK(mean);
-  if (mean->Dim() != num_elements) {
+  if (!mean->IsValid() || mean->Dim() != num_elements) {
     *mean = Array1<float>(c, num_elements);
   } else {
     K2_CHECK_EQ(mean->Dim(), num_elements);
   }
   K2_CHECK(var);
-  if (var->Dim() != num_elements) {
+  if (!var->IsValid() || var->Dim() != num_elements) {
     *var = Array1<float>(c, num_elements);
   } else {
     K2_CHECK_EQ(var->Dim(), num_elements);
   }
   K2_CHECK(counts_out);
-  if (counts_out->Dim() != num_elements) {
+  if (!counts_out->IsValid() || counts_out->Dim() != num_elements) {
     *counts_out = Array1<int32_t>(c, num_elements);
   } else {
     K2_CHECK_EQ(counts_out->Dim(), num_elements);
   }
   K2_CHECK(ngram_order);
-  if (ngram_order->Dim() != num_elements) {
+  if (!ngram_order->IsValid() || ngram_order->Dim() != num_elements) {
     *ngram_order = Array1<int32_t>(c, num_elements);
   } else {
     K2_CHECK_EQ(ngram_order->Dim(), num_elements);
-- 
2.43.0


From ab26bed4a50ba82aba6c7af827f34ef344b41965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 37/64] fix: get_best_matching_stats reported max_order for
 matches that start mid-sentence

The n-gram order is max_order only if the match goes back to the beginning of
both sentences, i.e. if it includes the preceding eos; a match that reaches the
first word of the query only need not be at the beginning of the key.
---
 k2/csrc/nbest.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index de7489c..8b73c05 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -575,7 +575,7 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
       counts_out_data[i] = counts_out_interval;
       ngram_order_data[i] = min(interval.lcp, (T)max_order);
       // handle the sentence boundary
-      if (dist_to_begin_data[i] <= interval.lcp)
+      if (dist_to_begin_data[i] < interval.lcp)
         ngram_order_data[i] = max_order;
     }
     mean_data[i] = counts_out_interval == 0 ? 0 :
-- 
2.43.0


From b4c2c8c3377b4e958f6f5a680aec827f5a85daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 38/64] fix: OnlineDenseIntersecter.decode accepts None for new
 streams

as its documentation and its example say.
---
 k2/python/k2/online_dense_intersecter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/online_dense_intersecter.py b/k2/python/k2/online_dense_intersecter.py
index efb7510..3428c21 100644
--- a/k2/python/k2/online_dense_intersecter.py
+++ b/k2/python/k2/online_dense_intersecter.py
@@ -132,6 +132,9 @@ class OnlineDenseIntersecter(object):
           lattices. See the example in the constructor to get more info about
           how to use the list of new decoding states.
         """
+        decode_states = [
+            DecodeStateInfo() if x is None else x for x in decode_states
+        ]
         ragged_arc, arc_map, new_decode_states = self.intersecter.decode(
             dense_fsas.dense_fsa_vec, decode_states
         )
-- 
2.43.0


From 4438ae4a61d11f62d8db5e752ac91cf1471ba2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 39/64] fix: get_best_matching_stats included the scores of
 queries in the statistics

The mean and the variance are over the matching key positions.
---
 k2/csrc/nbest.cu | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 8b73c05..0ed8564 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -494,9 +494,11 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
     // reversed accordingly, and make sure that the counts and scores be zero
     // in the positions of eos and terminator.
     int32_t rindex = seq_len - 2 - suffix_array_data[i] - 1;
-    reorder_counts_data[i] = rindex < 0 ? 0 : counts_data[rindex];
-    reorder_scores_data[i] = rindex < 0 ? 0 : scores_data[rindex];
-    reorder_scores_squre_data[i] = rindex < 0 ? 0 :
+    // only the scores of keys matter, whatever those of queries are.
+    int32_t count = rindex < 0 ? 0 : counts_data[rindex];
+    reorder_counts_data[i] = count;
+    reorder_scores_data[i] = count == 0 ? 0 : scores_data[rindex];
+    reorder_scores_squre_data[i] = count == 0 ? 0 :
                                    scores_data[rindex] * scores_data[rindex];
   }
   ExclusiveSum(reorder_counts, &reorder_counts);
-- 
2.43.0


From 7845084c63bd313cecfe679a3af0f22205116863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 40/64] fix: RnntDecodingStreams.format_output used the filler
 of another attribute

The filler of the attribute looked at last was used for all of them.
---
 k2/python/k2/rnnt_decode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..a3d0b57 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -230,6 +230,7 @@ class RnntDecodingStreams(object):
         # combine the attributes propagating from different decoding graphs
         for name, info in tensor_attr_info.items():
             values = list()
+            filler = info["filler"]
             start = 0
             for i in range(self.num_streams):
                 src = self.src_streams[i].fsa
-- 
2.43.0


From 9ed246956adb0e4f639045e5762b213e144d6c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 41/64] fix: OnlineDenseIntersecter revived a stream whose
 search had died

The empty frames of such a stream were removed between two chunks, so the
search went on from its last frame with active states.
---
 k2/csrc/intersect_dense_pruned.cu | 34 +++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..3f2aa01 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1800,12 +1800,34 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
   auto stack_states = Stack(0, num_seqs, seq_states_ptr_vec.data());
   auto stack_arcs = Stack(0, num_seqs, seq_arcs_ptr_vec.data());
 
-  // Remove empty lists on frame axis, these empty lists come from the
-  // Unstack of the previous chunk
-  stack_states = Ragged<StateInfo>(RemoveEmptyLists(stack_states.shape, 1),
-                                   stack_states.values);
-  stack_arcs = Ragged<ArcInfo>(RemoveEmptyLists(stack_arcs.shape, 1),
-                               stack_arcs.values);
+  // Remove empty lists at the beginning of the frame axis, these empty lists
+  // come from the Unstack of the previous chunk (they are the left padding of
+  // sequences that are shorter than the others).  Other empty lists have to be
+  // kept, they are the frames of a sequence whose search has died; without them
+  // the search would continue from the last frame that has active states.
+  {
+    const int32_t *row_splits1_data = stack_states.RowSplits(1).Data(),
+                    *row_ids1_data = stack_states.RowIds(1).Data(),
+                 *row_splits2_data = stack_states.RowSplits(2).Data();
+    Renumbering renumber_frames(c_, stack_states.TotSize(1));
+    char *keep_data = renumber_frames.Keep().Data();
+    K2_EVAL(
+        c_, stack_states.TotSize(1), lambda_set_keep, (int32_t idx01)->void {
+          int32_t idx0 = row_ids1_data[idx01],
+                 idx0x = row_splits1_data[idx0],
+            idx0x_next = row_splits1_data[idx0 + 1];
+          // Always keep the last frame, so a sequence has at least one frame.
+          keep_data[idx01] =
+              (row_splits2_data[idx01 + 1] > row_splits2_data[idx0x] ||
+               idx01 + 1 == idx0x_next);
+        });
+    stack_states = Ragged<StateInfo>(
+        RemoveSomeEmptyLists(stack_states.shape, 1, renumber_frames),
+        stack_states.values);
+    stack_arcs = Ragged<ArcInfo>(
+        RemoveSomeEmptyLists(stack_arcs.shape, 1, renumber_frames),
+        stack_arcs.values);
+  }
 
   std::vector<Ragged<StateInfo>> frame_states_vec;
   std::vector<Ragged<ArcInfo>> frame_arcs_vec;
-- 
2.43.0


From f86451aa1b55b2dab48251e454a11fd4fbd21fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 42/64] fix: OnlineDenseIntersecter pruned the start state of a
 stream with a shorter history

---
 k2/csrc/intersect_dense_pruned.cu | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 3f2aa01..756c85a 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1426,6 +1426,24 @@ class MultiGraphDenseIntersectPruned {
         PropagateBackward(t, cur_frame, frames_[t+1].get(),
                           &this_states_keep, &this_arcs_keep);
 
+        if (online_decoding_ && t > begin_t) {
+          // The histories of sequences that are shorter than others were padded
+          // on the left with empty frames, so their start states may be on any
+          // frame: we can't discard states that have nothing before them.
+          const int32_t *prev_row_splits1_data =
+                            frames_[t - 1]->states.RowSplits(1).Data(),
+                        *row_ids1_data = cur_frame->states.RowIds(1).Data();
+          char *states_keep_data = this_states_keep.Data();
+          K2_EVAL(
+              c_, cur_frame->states.NumElements(), lambda_keep_start_states,
+              (int32_t state_idx01)->void {
+                int32_t idx0 = row_ids1_data[state_idx01];
+                if (prev_row_splits1_data[idx0] ==
+                    prev_row_splits1_data[idx0 + 1])
+                  states_keep_data[state_idx01] = 1;
+              });
+        }
+
         old_row_splits1_ptrs_data[i] = cur_frame->arcs.RowSplits(1).Data();
         old_row_ids1_ptrs_data[i] = cur_frame->arcs.RowIds(1).Data();
         old_row_splits2_ptrs_data[i] = cur_frame->arcs.RowSplits(2).Data();
-- 
2.43.0


From 2b102f99d5cc811122be21fb3023f66d1a75ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 43/64] fix: ctc_loss mean reduction with an empty target

The loss was divided by the length 0; torch.nn.CTCLoss, whose meaning the
documentation refers to, divides by at least 1.
---
 k2/python/k2/ctc_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/ctc_loss.py b/k2/python/k2/ctc_loss.py
index ed55855..379b1d7 100644
--- a/k2/python/k2/ctc_loss.py
+++ b/k2/python/k2/ctc_loss.py
@@ -147,7 +147,7 @@ class CtcLoss(nn.Module):
             return loss.sum()
         else:
             assert self.reduction == "mean"
-            loss /= target_lengths
+            loss = loss / target_lengths.clamp(min=1)
             return loss.mean()
 
 
-- 
2.43.0


From b7282402638302ca60c1b8921b0598c163463931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 44/64] fix: levenshtein_alignment renamed an attribute of its
 argument

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index ad05877..2f44551 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1442,6 +1442,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # Rename the attribute of a copy, so that the argument is left unchanged
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From fd3039211cb144b598800a30bff6c43d38b35964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 45/64] fix: Nbest.from_lattice failed if the scores of the
 lattice require a gradient

---
 k2/python/k2/nbest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..c36471d 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,16 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # Scale the scores of a copy, so that `lattice` is left unchanged
+        scaled_lattice = lattice.clone()
+        scaled_lattice.scores = scaled_lattice.scores * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From b7c25b4f704aa7ada3d4cda9a6dab411fc3855bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 46/64] fix: Nbest.top_k failed if all utterances have less
 than k paths

---
 k2/python/k2/nbest.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index c36471d..20236c3 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -285,7 +285,12 @@ class Nbest(object):
                 f'n-best: {self.shape.row_splits(1)}'
 
         # Select the idx01's of top-k paths of each utterance
-        top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
+        top_k_indexes = padded_indexes[:, :k]
+        if top_k_indexes.shape[1] < k:
+            # All utterances have less than k paths
+            last = top_k_indexes[:, -1:].expand(-1, k - top_k_indexes.shape[1])
+            top_k_indexes = torch.cat([top_k_indexes, last], dim=1)
+        top_k_indexes = top_k_indexes.flatten().contiguous()
 
         top_k_fsas = k2.index_fsa(self.fsa, top_k_indexes)
 
-- 
2.43.0


From 0eaa5e005660aaf81eb9a833d06b7624e6c7a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 47/64] fix: Nbest.intersect called a property

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 20236c3..23454d8 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -219,8 +219,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From f268f188fdce570899fdd97760dabc67e8b2d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 48/64] fix: Nbest.intersect failed if the intersection is not
 top-sorted

---
 k2/python/k2/nbest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 23454d8..3b0dd6d 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -233,6 +233,9 @@ class Nbest(object):
                                        b_to_a_map=path_to_seq_map,
                                        sorted_match_a=True)
 
+        # The intersection is not necessarily top-sorted
+        ans_lats = k2.top_sort(k2.connect(ans_lats))
+
         one_best = k2.shortest_path(ans_lats, use_double_scores=True)
 
         one_best = k2.remove_epsilon(one_best)
-- 
2.43.0


From 978e900eb508582edfc9d51a5b69affb555661e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 49/64] fix: whole_lattice_rescoring changed the scores and
 attributes of its argument

---
 k2/python/k2/nbest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 3b0dd6d..b803f83 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -329,6 +329,8 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
+    # The scores and attributes of a copy are changed below
+    lats = lats.clone()
     lats.scores = lats.scores - lats.lm_scores
     # Now lats contains only acoustic scores
 
-- 
2.43.0


From 38a8b91a989b2ec1738f86a7e8bc33e7d499afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 50/64] fix: generate_nbest_list added an attribute to its
 argument

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index b803f83..6267fbc 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -398,7 +398,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     assert hasattr(lats, 'phones')
 
     assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
+    tokens = lats.phones
     # we use tokens instead of phones in the following code
 
     # First, extract `num_paths` paths for each sequence.
@@ -409,7 +409,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From 38d70c21703ce883a510cb964e2f6acd3cef7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 51/64] fix: Invert of the C++ API changed the labels of copies
 of its argument

---
 k2/torch/csrc/fsa_algo.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/torch/csrc/fsa_algo.cu b/k2/torch/csrc/fsa_algo.cu
index adcb759..49fc1be 100644
--- a/k2/torch/csrc/fsa_algo.cu
+++ b/k2/torch/csrc/fsa_algo.cu
@@ -95,6 +95,8 @@ void Invert(FsaClass *lattice) {
     aux_labels = torch::where(labels == -1, minus_one, aux_labels);
 
     lattice->SetTensorAttr("aux_labels", labels);
+    // The arcs may be shared with copies of `lattice`.
+    lattice->fsa = lattice->fsa.Clone();
     lattice->SetLabels(aux_labels);
   } else {
     K2_CHECK(lattice->HasRaggedTensorAttr("aux_labels"));
-- 
2.43.0


From 921411ce400abfff9c233de6c691410aec898c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 52/64] fix: FsaClass::CopyAttrs mixed the values of several
 attributes

---
 k2/torch/csrc/fsa_class.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/torch/csrc/fsa_class.cu b/k2/torch/csrc/fsa_class.cu
index 90c3de3..ab4fca5 100644
--- a/k2/torch/csrc/fsa_class.cu
+++ b/k2/torch/csrc/fsa_class.cu
@@ -75,9 +75,9 @@ void FsaClass::CopyTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_info.insert(std::make_pair(iter.first, dtype));
     }
   }
-  std::vector<torch::Tensor> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &iter : attrs_info) {
+    std::vector<torch::Tensor> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map_array =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
@@ -119,9 +119,9 @@ void FsaClass::CopyRaggedTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_name.insert(iter.first);
     }
   }
-  std::vector<Ragged<int32_t>> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &name : attrs_name) {
+    std::vector<Ragged<int32_t>> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
-- 
2.43.0


From 9b25508ddd55c4bc9cbb46395ba0852b88c8cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 53/64] fix: the wave reader did not skip the padding of
 odd-sized chunks

---
 k2/torch/csrc/wave_reader.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/wave_reader.cu b/k2/torch/csrc/wave_reader.cu
index 814ca57..66562e0 100644
--- a/k2/torch/csrc/wave_reader.cu
+++ b/k2/torch/csrc/wave_reader.cu
@@ -59,7 +59,8 @@ struct WaveHeader {
     //                              a t a d
     while (is && subchunk2_id != 0x61746164) {
       const char *p = reinterpret_cast<const char *>(&subchunk2_id);
-      is.seekg(subchunk2_size, std::istream::cur);
+      // chunks are padded to an even number of bytes
+      is.seekg(subchunk2_size + (subchunk2_size & 1), std::istream::cur);
       is.read(reinterpret_cast<char *>(&subchunk2_id), sizeof(int32_t));
       is.read(reinterpret_cast<char *>(&subchunk2_size), sizeof(int32_t));
     }
-- 
2.43.0


From b93d739d34c304a1d25061c27eafd68d20c07316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 54/64] fix: Array1FromTorch of the C++ API refused tensors
 with one element

---
 k2/torch/csrc/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 8c6125e..998b5ac 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -84,9 +84,10 @@ Array1<T> Array1FromTorch(torch::Tensor tensor) {
   K2_CHECK(tensor.dtype().Match<T>())
       << "Expected dtype type: " << caffe2::TypeMeta::Make<T>()
       << ". Given: " << tensor.scalar_type();
-  // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
-  // clone() method, it is valid here, so we won't check its strides.
-  if (tensor.numel() > 0)
+  // Some tensors with at most one element may have stride not equal to 1, e.g.,
+  // tensors returned by clone() method, it is valid here, so we won't check
+  // their strides.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.stride(0), 1)
         << "Expected stride: 1. Given: " << tensor.stride(0);
 
-- 
2.43.0


From db2be45478040232f1fc1026883caba7154f0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 55/64] fix: ragged text with malformed negative numbers or
 infinities was accepted

---
 k2/csrc/math.cu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/math.cu b/k2/csrc/math.cu
index f53b854..79036ca 100644
--- a/k2/csrc/math.cu
+++ b/k2/csrc/math.cu
@@ -104,13 +104,16 @@ Real FixedRead(std::istream &is) {
   char c = is.peek();
   if (c == '-') {
     is.get();
+    c = is.peek();
+    if (c != '.' && !isalnum(c)) is.setstate(std::ios::failbit);
+    if (!is.good()) return 0;
     return -FixedRead<Real>(is);
   } else if (c == 'i' || c == 'I') {
     char c[10];
     int pos = 0;
     while (pos < 9 && isalpha(is.peek())) c[pos++] = tolower(is.get());
     c[pos] = '\0';
-    if (strncmp(c, "inf", 3) && strncmp(c, "infinity", 8))
+    if (strcmp(c, "inf") && strcmp(c, "infinity"))
       is.setstate(std::ios::failbit);
     return std::numeric_limits<Real>::infinity();
     // can handle NaN's later, with:
-- 
2.43.0


From f98a4c965b5cb4a95da05758c33ac2d9abf2ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 56/64] fix: nested lists with values above the deepest level
 gave another ragged tensor

---
 k2/python/csrc/torch/v2/ragged_any.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index ba6d13e..cfc65fc 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -99,6 +99,10 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
   if (static_cast<size_t>(*cur_level) > row_splits->size()) {
     // This is a deeper level that has not been seen, so
     // we need to allocate a row_split for this level
+    if (!elems->empty()) {
+      // Handle the case for [ [1], [[]] ]
+      throw std::runtime_error("Make sure sublists are properly nested");
+    }
     row_splits->resize(*cur_level, std::vector<int32_t>(1, 0));
   }
 
-- 
2.43.0


From 94324884edf37bd763e6f5261025dd553e3c6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 57/64] fix: FsaFromArray1 wrote out of bounds if an arc leaves
 a state beyond the final state

---
 k2/csrc/fsa.cu | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..6b19dfb 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -318,6 +318,13 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
     *error = true;
     return Fsa();
   }
+  if (num_arcs != 0 && row_ids1.Back() > final_state) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, "
+                       "src_state " << row_ids1.Back()
+                    << " is beyond the final state " << final_state;
+    *error = true;
+    return Fsa();
+  }
   Array1<int32_t> row_splits1(c, final_state + 2);
   RowIdsToRowSplits(c, num_arcs, row_ids1_data, false, final_state + 1,
                     row_splits1.Data());
-- 
2.43.0


From da17f02a6006612f74b21ded728f21b768921209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 58/64] fix: FsaVecFromTensor read and wrote out of bounds for
 malformed tensors

---
 k2/csrc/fsa.cu | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 6b19dfb..6335d8f 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -403,11 +403,16 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
     return Fsa();
   }
   int32_t num_ints = t.Dim(0);
+  if (num_ints == 0) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, it is empty";
+    *error = true;
+    return Fsa();
+  }
   Array1<int32_t> int_array(num_ints, t.GetRegion(), t.ByteOffset());
   num_fsas = int_array[0];
 
   int32_t arcs_start = 2 + (num_fsas + 1) * 2;
-  if (num_fsas < 0 || num_ints < arcs_start ||
+  if (num_fsas < 0 || num_fsas > num_ints || num_ints < arcs_start ||
       (num_ints - arcs_start) % 4 != 0) {
     K2_LOG(WARNING) << "Could not convert tensor to FSA, num_ints = "
                     << num_ints << ", num_fsas = " << num_fsas;
@@ -465,6 +470,13 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
 
   Array1<int32_t> &row_ids2 =
       row_ids12;  // we overwrote the data in the lambda above.
+  if (!ValidateRowIds(row_ids2) ||
+      (num_arcs != 0 && row_ids2.Back() >= num_states)) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, "
+                       "src_states of arcs were out of order or out of range";
+    *error = true;
+    return Fsa();
+  }
   RowIdsToRowSplits(row_ids2, &row_splits2);
 
   if (!ValidateRowSplitsAndIds(row_splits2, row_ids2,
-- 
2.43.0


From 54e4616d7500b52df914b55200ad828c499a9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 59/64] fix: create_fsa_vec() of no FSAs crashed

---
 k2/python/csrc/torch/fsa.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/csrc/torch/fsa.cu b/k2/python/csrc/torch/fsa.cu
index 1c8bf07..9d3b66e 100644
--- a/k2/python/csrc/torch/fsa.cu
+++ b/k2/python/csrc/torch/fsa.cu
@@ -182,6 +182,7 @@ static void PybindFsaUtil(py::module &m) {
   m.def(
       "create_fsa_vec",
       [](std::vector<Fsa *> &fsas) -> FsaVec {
+        K2_CHECK(!fsas.empty()) << "Expect at least one FSA";
         DeviceGuard guard(fsas[0]->Context());
         return CreateFsaVec(fsas.size(), fsas.data());
       },
-- 
2.43.0


From 56e3761f34a9ce03783ffe901ec42a2f871f2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 60/64] fix: an OpenFst text with a sign in place of a final
 state was accepted

---
 k2/csrc/fsa_utils.cu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 33e7082..42ee74f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -314,7 +314,9 @@ class OpenFstStreamReader {
       return true;  // empty line.
     int32_t final_state;
     float final_cost;
-    line_is >> final_state >> std::ws;
+    line_is >> final_state;
+    if (line_is.fail()) return false;
+    if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
     } else if (line_is.peek() == 'I') {
-- 
2.43.0


From 47a5fb2c544d5332740bdd5b13fd247895861289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 61/64] fix: FsaVecFromTensor accepted arcs that belong to
 another FSA

---
 k2/csrc/fsa.cu | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 6335d8f..6b12bd2 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -479,6 +479,13 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
   }
   RowIdsToRowSplits(row_ids2, &row_splits2);
 
+  if (!Equal(row_splits2[row_splits1], row_splits12)) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, "
+                       "src_states of arcs do not belong to their FSAs";
+    *error = true;
+    return Fsa();
+  }
+
   if (!ValidateRowSplitsAndIds(row_splits2, row_ids2,
                                &row_splits12)) {  // last arg is temp space
     K2_LOG(WARNING)
-- 
2.43.0


From a5ed330206cc71e88e01ed2331c259a56116413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 62/64] fix: ReplaceFsa read arcs of the replacements out of
 bounds

---
 k2/csrc/fsa_algo.cu | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 3f899ec..9677caf 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -2074,13 +2074,7 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
         } else {
           int32_t src_state_idx0x = src_row_splits1_data[src_fsa_idx0],
                   src_state_idx0x_next = src_row_splits1_data[src_fsa_idx0 + 1],
-                  num_states = src_state_idx0x_next - src_state_idx0x,
-                  src_state_idx1 = idx3,
-                  src_state_idx01 = src_state_idx0x + src_state_idx1,
-                  src_arc_idx01x = src_row_splits2_data[src_state_idx01],
-                  src_arc_idx2 = idx4,
-                  src_arc_idx012 = src_arc_idx01x + src_arc_idx2;
-          src_arc = src_arcs_data[src_arc_idx012];
+                  num_states = src_state_idx0x_next - src_state_idx0x;
           // handle the arcs belongs to index
           if (idx2 == 0) {
             // if the fsa to be replaced in is empty, this arc would point to
@@ -2105,6 +2099,12 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
             oarc.score = index_arc.score;
             arc_index_map_idx = index_arc_idx012;
           } else {   // handle the arcs belongs to src
+            int32_t src_state_idx1 = idx3,
+                    src_state_idx01 = src_state_idx0x + src_state_idx1,
+                    src_arc_idx01x = src_row_splits2_data[src_state_idx01],
+                    src_arc_idx2 = idx4,
+                    src_arc_idx012 = src_arc_idx01x + src_arc_idx2;
+            src_arc = src_arcs_data[src_arc_idx012];
             // the arc point to the final state of the fsa in src would point to
             // the dest state of the arc we're replaceing
             if (src_arc.label == -1) {
-- 
2.43.0


From d26a9bc0690f9dd8209f2288f85acfa8ef1d7fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 63/64] fix: is_rand_equivalent() compared path weights counted
 twice with the beam

The weights of the sampled path were added to the weight that each machine
gives to the path's string, so with a finite beam the wrong paths were skipped
(or not skipped): machines that agree on all paths within the beam could be
reported as different, and machines that differ within it as equivalent.
---
 k2/csrc/host/fsa_equivalent.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/csrc/host/fsa_equivalent.cc b/k2/csrc/host/fsa_equivalent.cc
index 391cde4..02060c9 100644
--- a/k2/csrc/host/fsa_equivalent.cc
+++ b/k2/csrc/host/fsa_equivalent.cc
@@ -280,6 +280,11 @@ bool IsRandEquivalent(const Fsa &a, const Fsa &b,
     // path is already connected so we will not call `::Connect` here
     ArcSort(&valid_path_storage.GetFsa());
     const auto &valid_path = valid_path_storage.GetFsa();
+    // We only need the labels of the path.  Its weights have to be removed,
+    // otherwise they would be added to `cost_a` and `cost_b` below, which are
+    // compared with the (beam-adjusted) total weights of `a` and `b`.
+    for (int32_t i = 0; i != valid_path.size2; ++i)
+      valid_path.data[i].weight = 0;
 
     FsaCreator a_compose_path_storage, b_compose_path_storage;
     std::vector<int32_t> arc_map_a_path, arc_map_b_path;
-- 
2.43.0


From 1cad4ee4ef6e730be14faf66b72298f83b9251b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 64/64] fix: intersect_dense kept states, labels, frames and
 FSA indexes in 16 bits

---
 k2/csrc/intersect_dense.cu | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index 194641c..d22d2a2 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -633,9 +633,9 @@ class MultiGraphDenseIntersect {
         c_, tot_arcs, set_carcs_lambda, (int32_t i)->void {
           Arc arc = arcs_data[i];
           CompressedArc carc;
-          carc.src_state = uint16_t(arc.src_state);
-          carc.dest_state = uint16_t(arc.dest_state);
-          carc.label_plus_one = uint16_t(arc.label + 1);
+          carc.src_state = arc.src_state;
+          carc.dest_state = arc.dest_state;
+          carc.label_plus_one = arc.label + 1;
           carc.fsa_idx = a_fsas_row_ids1[a_fsas_row_ids2[i]];
           carc.score = arc.score;
           {  // set carc.incoming_arc_idx012
@@ -674,10 +674,9 @@ class MultiGraphDenseIntersect {
         c_, num_fsas_, lambda_set_fsa_info, (int32_t i)->void {
           FsaInfo info;
           int32_t j = a_to_b_map_data[i];
-          info.T = uint16_t(b_fsas_row_splits1_data[j + 1] -
-                            b_fsas_row_splits1_data[j]);
-          info.num_states = uint16_t(a_fsas_row_splits1_data[i + 1] -
-                                     a_fsas_row_splits1_data[i]);
+          info.T = b_fsas_row_splits1_data[j + 1] - b_fsas_row_splits1_data[j];
+          info.num_states =
+              a_fsas_row_splits1_data[i + 1] - a_fsas_row_splits1_data[i];
           info.scores_offset = b_fsas_row_splits1_data[j] * scores_stride;
           info.state_offset = a_fsas_row_splits1_data[i];
           info.arc_offset = a_fsas_row_splits2_data[info.state_offset];
@@ -942,14 +941,14 @@ class MultiGraphDenseIntersect {
   // This is just a copy of a_fsas_.arcs, with a couple extra pieces of
   // information.
   struct CompressedArc {
-    // src_state of Arc, as uint16 (an idx1)
-    uint16_t src_state;
-    // dest_state of Arc, as uint16 (an idx1)
-    uint16_t dest_state;
-    // label of Arc, plus one, as uint16
-    uint16_t label_plus_one;
-    // FSA index, as uint16.
-    uint16_t fsa_idx;
+    // src_state of Arc (an idx1)
+    int32_t src_state;
+    // dest_state of Arc (an idx1)
+    int32_t dest_state;
+    // label of Arc, plus one
+    int32_t label_plus_one;
+    // FSA index.
+    int32_t fsa_idx;
     // The idx012 of the position of this arc in the arc_scores_ array in the
     // Step.  This position is obtained by (1) renumbering the arc-indexes in
     // a_fsas_ to produce incoming_arcs_, (2) appending a_fsas_.shape and
@@ -960,8 +959,7 @@ class MultiGraphDenseIntersect {
     int32_t incoming_arc_idx012;
     float score;
   };
-  // The arcs in a_fsas_.arcs, converted to int16_t's and with a little more
-  // information.
+  // The arcs in a_fsas_.arcs, with a little more information.
   Array1<CompressedArc> carcs_;
 
   // incoming_arcs_.shape is a modified version of the shape a_fsas_.arcs.shape,
@@ -987,9 +985,9 @@ class MultiGraphDenseIntersect {
     // The number of copies of the states of a_fsas_ that we have in the total
     // state space equals T+1, i.e. we have copies of those states for times
     // 0 <= t <= T.
-    uint16_t T;
+    int32_t T;
     // num_states is the number of states this FSA has.
-    uint16_t num_states;
+    int32_t num_states;
     // scores_offset is the offset of first location in b_fsas_.scores.Data()
     // that is for this FSA, i.e. b_fsas_.scores.Data()[scores_offset] is the
     // score for t=0, symbol=-1 of this FSA.
-- 
2.43.0

