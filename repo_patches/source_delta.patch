From adcc65187f87f6bf722ac89615421968403e3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:04 +0000
Subject: [PATCH 01/24] fix: broadcast a scalar against a dynamic array that
 currently has one element

BinaryOpNode compared the operands' shapes in the current state, so a dynamic
operand of shape (1,) was mistaken for the same-shape case (dropping growth
and shrinkage, and reading or writing out of bounds).
---
 dwave/optimization/src/nodes/mathematical.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..efa935d 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,12 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    // The dynamic operand determines our shape. Note that it can itself have
+    // (currently) exactly one element.
+    return (operands_[0]->size() == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +380,10 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    return (operands_[0]->size() == 1) ? operands_[1]->size(state) : operands_[0]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From 3b8aece10b5da00b60e947a31164ec91606ac314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:04 +0000
Subject: [PATCH 02/24] fix: bounds of a squared array over ranges that include
 negative values

The minimum (maximum) was taken as the square of the predecessor's minimum
(maximum), e.g. [25, 4] for values in [-5, 2].
---
 dwave/optimization/src/nodes/mathematical.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index efa935d..c8a90e2 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1794,8 +1794,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the square is largest at whichever end of the range is furthest from 0
+    const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1843,8 +1844,11 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    // a range that contains 0 has a smallest square of 0
+    if (array_ptr_->min() <= 0 && array_ptr_->max() >= 0) return 0;
+
+    const double min = std::min(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From 72def030e4c2913849e3be18a2c511126817513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:03 +0000
Subject: [PATCH 03/24] fix: arrays with equally many elements do not
 necessarily have the same shape

array_shape_equal() only compared sizes, so e.g. shapes (2, 2) and (4,) were
reported as equal.
---
 dwave/optimization/src/array.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..ef762e2 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -163,6 +163,15 @@ std::string shape_to_string(const std::span<const ssize_t> shape) {
 }
 
 bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
+    // Arrays with the same number of elements can still have different shapes.
+    // The size of the first dimension of a dynamic array is only known per state, but it
+    // is determined by the other dimensions and the number of elements.
+    if (lhs_ptr->ndim() != rhs_ptr->ndim()) return false;
+    const ssize_t skip = lhs_ptr->dynamic() || rhs_ptr->dynamic();
+    if (!std::ranges::equal(lhs_ptr->shape().subspan(skip), rhs_ptr->shape().subspan(skip))) {
+        return false;
+    }
+
     auto lhs_size = lhs_ptr->sizeinfo();
     auto rhs_size = rhs_ptr->sizeinfo();
 
-- 
2.43.0


From 8bc712183d6adcfb143ac2a6ad53a3fa722c3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 04/24] fix: do not accumulate rounding errors when updating a
 product

Changing a factor multiplied the product by value / old, e.g. 49 * (1 / 49.)
= 0.9999999999999999 rather than 1.
---
 dwave/optimization/src/nodes/mathematical.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index c8a90e2..4719e05 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1636,8 +1636,10 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             nonzero /= update.old;
             num_zero += 1;
         } else {
-            // something else to something else
-            nonzero *= (update.value / update.old);
+            // something else to something else. Divide first, because old is a factor of
+            // nonzero whereas the ratio of the two values is in general not representable
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
-- 
2.43.0


From 60f6c19bcba9b25feb2799bd8ac2502145af5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 05/24] fix: bounds of a max/min reduction with an initial
 value over an empty array

An array that can be empty reduces to the initial value, which was outside of
the reported bounds when it lies below (above) all of the array's elements.
---
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 4719e05..0695988 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1294,6 +1294,12 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether there might be a state in which the array has no elements.
+static bool maybe_empty(const Array* array_ptr) {
+    if (const ssize_t size = array_ptr->size(); size >= 0) return size == 0;
+    return array_ptr->sizeinfo().substitute(100).min.value_or(0) < 1;
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1309,6 +1315,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // the minimum over an empty array is init
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1392,6 +1400,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // the maximum over an empty array is init
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
-- 
2.43.0


From c21823ac188e3162e08870148d9698f933cff05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:39 +0000
Subject: [PATCH 06/24] fix: values and updates of strided and
 multi-dimensional slices

The first element of a slice with a step over a dynamic array was read at
start * step rather than start. The indices of the updates of slices with
more than one dimension, or of slices of multi-dimensional dynamic arrays,
were translated incorrectly or dropped.
---
 .../dwave-optimization/nodes/indexing.hpp     |   7 ++
 dwave/optimization/src/nodes/indexing.cpp     | 115 +++++++++---------
 2 files changed, 65 insertions(+), 57 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..0315f84 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -232,6 +232,13 @@ class BasicIndexingNode : public ArrayNode {
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
 
+    // Whether the diff needs to be recalculated from the previous output, because the elements
+    // of the parent that we see depend on its size in a way that we cannot easily track.
+    bool recompute_diff() const;
+
+    // Map the (flat) index of an element of the parent to its index in the view, if present.
+    std::optional<ssize_t> view_index(ssize_t index) const;
+
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
     const Array* array_ptr_;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..087a9de 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1185,7 +1185,7 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (recompute_diff()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1193,7 +1193,51 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // The strides account for the step, but the start does not
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
+}
+
+bool BasicIndexingNode::recompute_diff() const {
+    if (!dynamic()) return false;
+    const Slice& slice = axis0_slice_.value();
+    return slice.start < 0 || (slice.stop < 0 && !(contiguous_ && ndim_ == 1));
+}
+
+std::optional<ssize_t> BasicIndexingNode::view_index(ssize_t index) const {
+    // we rely on the parent being contiguous!
+    assert(array_ptr_->contiguous());
+
+    ssize_t output = 0;
+    ssize_t axis = 0;
+
+    if (dynamic()) {
+        // The first axis. The parent's size might be changing as the updates are applied, but
+        // which rows we see does not depend on it when neither start nor stop are negative.
+        assert(!recompute_diff());
+        const Slice& slice = axis0_slice_.value();
+        const ssize_t num_per_row = array_ptr_->strides()[0] / itemsize();
+        const ssize_t row = index / num_per_row;
+        if (row < slice.start || row >= slice.stop) return std::nullopt;  // out of range
+        if ((row - slice.start) % slice.step) return std::nullopt;        // "between" steps
+        output = (row - slice.start) / slice.step;
+        index %= num_per_row;
+        axis = 1;
+    }
+
+    index -= start_;
+    if (index < 0) return std::nullopt;
+
+    for (; axis < ndim_; ++axis) {
+        assert(strides_[axis] % itemsize() == 0);
+        const ssize_t div = strides_[axis] / itemsize();
+        const ssize_t i = index / div;
+        if (i >= shape_[axis]) return std::nullopt;  // out of range
+        output = output * shape_[axis] + i;
+        index %= div;
+    }
+    if (index) return std::nullopt;  // "between" steps
+
+    return output;
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1217,15 +1261,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (recompute_diff()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1250,8 +1290,8 @@ void BasicIndexingNode::propagate(State& state) const {
 
         assert(size(state) == i);
 
-    } else if (contiguous_ && dynamic()) {
-        // Handle the case of dynamic array with non-negative start.
+    } else if (contiguous_ && dynamic() && ndim_ == 1) {
+        // Handle the case of 1d dynamic array with non-negative start.
         //
         // The parent array's diff may contain a series of placements and removals
         // (interspersed with with mutations of the value at a given index) that make
@@ -1420,7 +1460,7 @@ void BasicIndexingNode::propagate(State& state) const {
         }
 
         update_dynamic_shape(state);
-    } else if (contiguous_) {
+    } else if (contiguous_ && !dynamic()) {
         // This is simple, it's just a numeric offset
 
         const ssize_t start = this->start_;
@@ -1438,56 +1478,18 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
-        assert(!this->contiguous());
+    } else {
+        // Handle all other cases of static sized arrays, and the case of dynamic but with
+        // positive start and end
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
 
         if (dynamic()) update_dynamic_shape(state);
 
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
-
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
-        assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
-
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
-
-            index -= start;
-
-            bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
-                    break;
-                }
-
-                index /= div;
+        for (const auto& [index, old, value] : array_ptr_->diff(state)) {
+            if (auto view_index = this->view_index(index)) {
+                diff.emplace_back(*view_index, old, value);
             }
-            if (skip) continue;
-
-            assert(index >= 0 && index < this->size(state));
-
-            diff.emplace_back(index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1501,8 +1503,7 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
+        if (recompute_diff()) {
             node_data->full_cache_.resize(node_data->previous_size);
         }
     }
-- 
2.43.0


From c5b1f7998639dc7d04db2def52d997d8a1504a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:46 +0000
Subject: [PATCH 07/24] fix: size information of slices and of advanced
 indexing

The size of s[1::2] was considered equal to that of s[::2], bounds were
scaled and offset more than once when substituting, and the number of
elements per row was ignored or applied twice.
---
 dwave/optimization/src/array.cpp          |  85 +++++++------
 dwave/optimization/src/nodes/indexing.cpp | 142 +++++++++++++---------
 2 files changed, 129 insertions(+), 98 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index ef762e2..5314438 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -43,51 +43,56 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 }
 
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
-    if (max_depth <= 0) return *this;
+    if (max_depth <= 0 || !array_ptr || multiplier == 0) return *this;
 
-    SizeInfo sizeinfo = this->array_ptr->sizeinfo();
-
-    // Check if substitution will do nothing, and return if so
-    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-    if (this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 && sizeinfo.offset == 0 &&
-        this->min.value_or(-MAX) >= sizeinfo.min.value_or(MAX) &&
-        this->max.value_or(MAX) <= sizeinfo.max.value_or(-MAX)) {
-        return *this;
-    }
-
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
-
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
-        } else {
-            sizeinfo.max = this->max;
-        }
+    if (!min && max && offset < 0 && *max <= -offset) {
+        // The largest number of elements is not enough to make up for the offset
+        SizeInfo sizeinfo = *this;
+        sizeinfo.multiplier = 0;
+        sizeinfo.offset = 0;
+        sizeinfo.min = sizeinfo.max = 0;
+        return sizeinfo;
     }
 
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
-        } else {
-            sizeinfo.min = this->min;
-        }
-    }
+    SizeInfo sizeinfo = this->array_ptr->sizeinfo();
 
-    if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
-    }
+    // Check whether the array only depends on itself, in which case we only need its bounds
+    const bool identity = this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 &&
+                          sizeinfo.offset == 0;
+
+    // The fractions are rounded up, so we can only combine them when that doesn't interfere
+    const bool combine = (this->multiplier * sizeinfo.offset).denominator() == 1 &&
+                         (this->multiplier.numerator() == 1 ||
+                          sizeinfo.multiplier.denominator() == 1);
+
+    // Get our bounds from the ones of the array
+    if (!combine) sizeinfo = sizeinfo.substitute(max_depth - 1);
+    auto convert = [this](ssize_t size) -> ssize_t {
+        const fraction product = this->multiplier * size;
+        const ssize_t rounded = product.numerator() / product.denominator() +
+                                (product.numerator() % product.denominator() > 0);
+        return std::max<ssize_t>(0, rounded + this->offset);
+    };
+    std::optional<ssize_t> new_min = this->min;
+    if (sizeinfo.min) new_min = std::max(convert(*sizeinfo.min), this->min.value_or(0));
+    if (new_min && this->max) new_min = std::min(*new_min, *this->max);
+
+    std::optional<ssize_t> new_max = this->max;
     if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+        const ssize_t converted = convert(*sizeinfo.max);
+        new_max = this->max ? std::min(*this->max, converted) : converted;
     }
+    if (new_max && this->min) new_max = std::max(*new_max, *this->min);
+
+    if (combine) {
+        sizeinfo.multiplier *= this->multiplier;
+        sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
+        sizeinfo.offset += this->offset;
+    } else {
+        sizeinfo = *this;
+    }
+    sizeinfo.min = new_max ? new_min.value_or(0) : new_min;
+    sizeinfo.max = new_max;
 
     // Adjust the minimum based on the offset
     if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
@@ -95,6 +100,8 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
         sizeinfo.multiplier = 0;
     }
 
+    if (identity || !combine) return sizeinfo;
+
     // in the future we can/should do an iterative rather than recurisive
     // version
     if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 087a9de..957fff1 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -644,9 +644,22 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    assert(this->ndim() >= 1);
+    const ssize_t num_per_row = strides()[0] / itemsize();
+
+    if (std::holds_alternative<Slice>(indices_[0])) {
+        // The first axis is the one of the array that is indexed
+        assert(array_ptr_->dynamic());
+        auto sizeinfo = SizeInfo(array_ptr_);
+        sizeinfo.multiplier /= array_ptr_->strides()[0] / array_ptr_->itemsize();
+        sizeinfo.multiplier *= num_per_row;
+        return sizeinfo;
+    }
+
+    // The first axis is the one of the indexing arrays
+    auto sizeinfo = SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    sizeinfo.multiplier *= num_per_row;
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
@@ -1518,68 +1531,79 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    const Slice& slice = *axis0_slice_;
 
-        sizeinfo.multiplier /= axis0_slice_->step;
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    const auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), ssize_t(1), std::multiplies<ssize_t>());
+
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    const bool has_stop = slice.stop != std::numeric_limits<ssize_t>::max();
+
+    // The number of rows that a positive start and a negative stop take away.
+    const ssize_t offset = std::min<ssize_t>(slice.stop, 0) - std::max<ssize_t>(slice.start, 0);
+
+    // The most rows there can be between start and stop, before accounting for the step.
+    std::optional<ssize_t> max;
+    if (slice.start < 0 && slice.stop >= 0) {
+        max = has_stop ? std::min(slice.stop, -slice.start) : -slice.start;
+    } else if (has_stop && (slice.start < 0) == (slice.stop < 0)) {
+        max = std::max<ssize_t>(0, slice.stop - slice.start);
     }
-
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
-
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
-
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
+    // account for the step, rounding up
+    if (max) max = *max / slice.step + (*max % slice.step > 0);
+
+    // A start that is relative to the end together with a stop that isn't means that the size
+    // does not always increase with the array's.
+    const bool monotone = !(slice.start < 0 && has_stop && slice.stop >= 0);
+
+    if (!monotone || (slice.step != 1 && (num_per_row != 1 || offset % slice.step))) {
+        // Our size is not a linear function of the size of the array (plus rounding), so we need
+        // to refer to ourselves. 100 is a magic number
+        const SizeInfo array_sizeinfo = array_ptr_->sizeinfo().substitute(100);
+        const ssize_t min_rows = array_sizeinfo.min.value_or(0) / array_num_per_row;
+
+        ssize_t min = slice.fit(min_rows).size();
+        if (array_sizeinfo.max) {
+            const ssize_t max_size = slice.fit(*array_sizeinfo.max / array_num_per_row).size();
+            if (monotone) {
+                max = max_size;
+            } else {
+                min = std::min(min, max_size);
             }
-
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
+        } else if (!monotone) {
+            min = 0;
         }
+        if (max) max = *max * num_per_row;
+        return SizeInfo(this, min * num_per_row, max);
     }
 
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.multiplier /= array_num_per_row;
+    sizeinfo.multiplier *= num_per_row;
+    sizeinfo.multiplier /= slice.step;
+    sizeinfo.offset = offset / slice.step * num_per_row;
+    if (max) {
+        sizeinfo.max = *max * num_per_row;
+        if (offset && *max) {
+            sizeinfo.min = 0;
+        } else if (offset && slice.stop > 0) {
+            // There are never any elements, which substitute() can tell from the offset
+            sizeinfo.max = slice.stop * num_per_row;
+        }
+    }
     return sizeinfo;
 }
 
-- 
2.43.0


From 95eb0bb68c32f2679e0f95d30507745b5e0a4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 08/24] fix: updates of permutations of arrays that are not
 two-dimensional

---
 dwave/optimization/src/nodes/indexing.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 957fff1..482dffd 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1740,14 +1740,17 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        // the number of elements to visit on either side of the axis
+        ssize_t num_outer = 1;
+        ssize_t num_inner = this->size() / n;
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
+                for (ssize_t j = 0, end = num_outer * num_inner; j < end; ++j) {
+                    const ssize_t i = (j / num_inner * n + index) * num_inner + j % num_inner;
+
                     old_offsets.emplace_back(offsets[i]);
 
                     offsets[i] += stride * (neo - old);
@@ -1763,8 +1766,8 @@ void PermutationNode::propagate(State& state) const {
                 }
             }
 
-            mul /= n;
-            step *= n;
+            num_outer *= n;
+            num_inner /= n;
         }
     }
 
-- 
2.43.0


From c824a382125a8384236a6764af3ffd9bfb5ec9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 09/24] fix: reject orders of a permutation with values out of
 range

---
 dwave/optimization/src/nodes/indexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 482dffd..015ce55 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1652,7 +1652,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
         throw std::invalid_argument("order may have values out of range");
     }
 
-- 
2.43.0


From 69bd08907f53558a33851a3e0640687054b631a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 10/24] fix: reject unsupported indexing of dynamic arrays
 rather than crash

Combining a slice over the first axis of a dynamic array with 0-d index
arrays was accepted by the constructor but not handled when initializing.
---
 dwave/optimization/src/nodes/indexing.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 015ce55..6252d72 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -331,11 +331,6 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
-            throw std::invalid_argument(
-                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
-        }
-
         assert(first_array != nullptr);
 
         if (!bullet1mode && std::holds_alternative<ArrayNode*>(indices_[0])) {
@@ -350,6 +345,11 @@ struct AdvancedIndexingNode::IndexParser_ {
             bullet1mode = true;
         }
 
+        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+            throw std::invalid_argument(
+                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
+        }
+
         if (indexing_arrays_ndim > 1) {
             throw std::invalid_argument(
                     "Advanced indexing currently only supports 0- and 1-dimensional indexing "
-- 
2.43.0


From 50c11c3a66c0a63fd0c010de3ef7cc5b2769358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 11/24] fix: recover the indices of basic indexing with an
 empty slice

The start of an empty slice spilled over into the other axes.
---
 dwave/optimization/src/nodes/indexing.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 6252d72..226033e 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -999,8 +999,12 @@ struct BasicIndexingNode::IndexParser_ {
                     // For the start, it's defined by the (fitted) slice's start
                     // Note that the start is in terms of doubles, but strides are in terms
                     // of bytes, so we have to be careful
-                    // We
-                    this->start += fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+                    // An empty slice might start after the end, which must not spill over into
+                    // the other axes
+                    if (array_dim == 0 || fitted.start < array_shape[array_dim]) {
+                        this->start +=
+                                fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+                    }
                 }
 
                 ++view_dim;
-- 
2.43.0


From 63446b9eb45c9f34e38395fdccfec9e2f1409ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:53 +0000
Subject: [PATCH 12/24] fix: record the previous value of concatenated elements

The previous value of the first element was recorded for all of them,
so that reverting did not restore the array.
---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From bdc74cd7ce825f4ef0f598b6db8e6e07940babe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:04 +0000
Subject: [PATCH 13/24] fix: the distance between two iterators must not modify
 them

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..a19ea7f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -452,8 +452,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From 08c5e20db407a2daba2089402aba0555a0442f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:41 +0000
Subject: [PATCH 14/24] fix: default moves of decisions that are empty

---
 dwave/optimization/src/nodes/collections.cpp | 6 ++++++
 dwave/optimization/src/nodes/numbers.cpp     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..31b876f 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -341,6 +341,8 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to move
+
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -663,6 +665,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 }
 
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to move
+
     auto data = data_ptr<DisjointListStateData>(state);
 
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
@@ -746,6 +750,8 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to move
+
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..932b21b 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,6 +139,8 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
@@ -168,6 +170,8 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From ba94dfdbe9ad7f846b3508f1a83017e70e99ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:41 +0000
Subject: [PATCH 15/24] fix: default moves of integers with negative bounds

---
 dwave/optimization/src/nodes/numbers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 932b21b..00dd63e 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -142,7 +142,7 @@ void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     if (!this->size(state)) return;  // nothing to move
 
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From 95f1e1ee0f08dfc5f8ed4bc6d71f79bcb8572c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:41 +0000
Subject: [PATCH 16/24] fix: default contents of lists that are smaller than
 their range

The elements that are not in the list initially were not available for
exchanges.
---
 dwave/optimization/src/nodes/collections.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 31b876f..3b24fcf 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -765,7 +765,8 @@ void ListNode::initialize_state(State& state) const {
     assert(static_cast<int>(state.size()) > index && "unexpected state length");
     assert(state[index] == nullptr && "already initialized state");
 
-    state[index] = std::make_unique<CollectionStateData>(max_size_);
+    // default to range(max_size_)
+    state[index] = std::make_unique<CollectionStateData>(max_value_, max_size_);
 }
 
 void SetNode::default_move(State& state, RngAdaptor& rng) const {
-- 
2.43.0


From cbc81f126484fff00b5e622127ba9e96feafee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:41 +0000
Subject: [PATCH 17/24] fix: reject bit-sets that are not disjoint

Only the total number of elements was checked, so an element that is in
two sets made up for one that is in none.
---
 dwave/optimization/src/nodes/collections.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 3b24fcf..d3e4412 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -244,7 +244,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        std::vector<ssize_t> num_sets(primary_set_size, 0);
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,11 +256,11 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                num_sets[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
+        if (std::ranges::any_of(num_sets, [](ssize_t num) { return num != 1; })) {
             throw std::invalid_argument(
                     "disjoint set elements must be in exactly one bit-set once");
         }
-- 
2.43.0


From 8bbed01e31db0d7745d6eb5e6a5fd1f1f713daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:25 +0000
Subject: [PATCH 18/24] fix: concatenate refuses dynamic arrays before
 connecting to its operands

---
 dwave/optimization/src/nodes/manipulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..41cb469 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -40,12 +40,16 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
+    // Check all of the arrays before connecting to any of them, because a node that throws
+    // during construction must not be left in its predecessors' successors
     for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         if ((*it)->dynamic()) {
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
+    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         this->add_predecessor((*it));
     }
 }
-- 
2.43.0


From d9f601e0d933fdee98492820946c393499619398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 19/24] fix: n-ary symbols check all operands before connecting
 to any

---
 .../dwave-optimization/nodes/mathematical.hpp |  8 ++++++-
 dwave/optimization/src/nodes/mathematical.cpp | 22 ++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..64f1314 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -159,7 +159,10 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     explicit NaryOpNode(ArrayNode* node_ptr);
     explicit NaryOpNode(std::span<ArrayNode*> node_ptrs);
     explicit NaryOpNode(ArrayNode* node_ptr, std::convertible_to<ArrayNode*> auto... node_ptrs)
-            : NaryOpNode(node_ptr) {
+            : ArrayOutputMixin(node_ptr->shape()) {
+        check_operand(node_ptr);
+        (check_operand(node_ptrs), ...);
+        add_node(node_ptr);
         (add_node(node_ptrs), ...);
     }
 
@@ -187,6 +190,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     }
 
  private:
+    // Throws if the given node cannot be an operand
+    void check_operand(const ArrayNode* node_ptr) const;
+
     using op = BinaryOp;
 
     std::vector<Array*> operands_;
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 0695988..dba9faf 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -491,18 +491,18 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // Check all of the operands before connecting to any of them, because a node that throws
+    // during construction must not be left in its predecessors' successors
+    for (const ArrayNode* ptr : node_ptrs) {
+        check_operand(ptr);
+    }
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
 }
 
 template <class BinaryOp>
-void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
-    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
-        this->topological_index() < node_ptr->topological_index()) {
-        throw std::logic_error("this operation would invalidate the topological ordering");
-    }
-
+void NaryOpNode<BinaryOp>::check_operand(const ArrayNode* node_ptr) const {
     if (node_ptr->dynamic()) {
         throw std::invalid_argument("arrays must not be dynamic");
     }
@@ -510,6 +510,16 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
     if (!std::ranges::equal(this->shape(), node_ptr->shape())) {
         throw std::invalid_argument("arrays must all be the same shape");
     }
+}
+
+template <class BinaryOp>
+void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
+        this->topological_index() < node_ptr->topological_index()) {
+        throw std::logic_error("this operation would invalidate the topological ordering");
+    }
+
+    check_operand(node_ptr);
 
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
-- 
2.43.0


From 2300cd067f07f71e96ecf66d92c2f35079df829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 20/24] fix: partial reductions refuse a bad axis before using
 it or connecting

---
 dwave/optimization/src/nodes/mathematical.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index dba9faf..a8eec13 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -774,6 +774,9 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -844,11 +847,7 @@ PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, co
 
 template <>
 PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, std::span<const ssize_t> axes)
-        : PartialReduceNode(array_ptr, nonempty(axes)[0], 0) {
-    if (axes.size() != 1){
-        throw std::invalid_argument("Partial sum supports only one axis");
-    }
-}
+        : PartialReduceNode(array_ptr, axes, 0) {}
 
 template <class BinaryOp>
 PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* array_ptr,
-- 
2.43.0


From 95979f100be313eef0e5051fc821943846618308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 21/24] fix: refuse to add an operand to an n-ary symbol of a
 locked model

---
 dwave/optimization/src/nodes/mathematical.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index a8eec13..84c55a3 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -514,9 +514,8 @@ void NaryOpNode<BinaryOp>::check_operand(const ArrayNode* node_ptr) const {
 
 template <class BinaryOp>
 void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
-    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
-        this->topological_index() < node_ptr->topological_index()) {
-        throw std::logic_error("this operation would invalidate the topological ordering");
+    if (this->topological_index() >= 0) {
+        throw std::logic_error("cannot add an operand to a symbol in a locked model");
     }
 
     check_operand(node_ptr);
-- 
2.43.0


From e7dd803c0a00bb194e462fe19648c819931eacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:45 +0000
Subject: [PATCH 22/24] fix: refuse an operand that depends on the n-ary symbol
 itself

---
 dwave/optimization/src/nodes/mathematical.cpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 84c55a3..2c36637 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -15,6 +15,7 @@
 #include "dwave-optimization/nodes/mathematical.hpp"
 
 #include <ranges>
+#include <unordered_set>
 
 #include "_state.hpp"
 #include "dwave-optimization/utils.hpp"
@@ -520,6 +521,26 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
 
     check_operand(node_ptr);
 
+    // The operand must not depend on this node. This is only possible for this node itself, or
+    // when this node is already used by others.
+    if (node_ptr == this) {
+        throw std::invalid_argument("a symbol cannot be its own operand");
+    }
+    if (!this->successors().empty()) {
+        std::unordered_set<const Node*> visited{node_ptr};
+        std::vector<const Node*> stack{node_ptr};
+        while (!stack.empty()) {
+            const Node* ptr = stack.back();
+            stack.pop_back();
+            for (const Node* pred_ptr : ptr->predecessors()) {
+                if (pred_ptr == this) {
+                    throw std::invalid_argument("an operand cannot depend on the symbol itself");
+                }
+                if (visited.insert(pred_ptr).second) stack.push_back(pred_ptr);
+            }
+        }
+    }
+
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
 }
-- 
2.43.0


From 6bc9358753736b3e3d1182f30c7659f5f8286176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 23/24] fix: keep the current shape of advanced indexing in the
 state

---
 .../dwave-optimization/nodes/indexing.hpp       |  1 -
 dwave/optimization/src/nodes/indexing.cpp       | 17 ++++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 0315f84..2fa5881 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -124,7 +124,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 226033e..023e787 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -180,6 +180,9 @@ struct AdvancedIndexingNodeData : NodeStateData {
     ssize_t old_offsets_size;
     ssize_t old_data_size;
 
+    // The current shape, if it's dynamic
+    mutable std::vector<ssize_t> dynamic_shape;
+
  private:
     void delete_from_reverse(ssize_t index, ssize_t offset) {
         if (!maintain_reverse_offset_map) return;
@@ -471,13 +474,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -665,8 +661,11 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+    // The shape belongs to the state, because there can be several states at the same time
+    auto& dynamic_shape = data_ptr<AdvancedIndexingNodeData>(state)->dynamic_shape;
+    dynamic_shape.assign(shape_.get(), shape_.get() + this->ndim());
+    dynamic_shape[0] = this->size(state) / (strides()[0] / itemsize());
+    return dynamic_shape;
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
-- 
2.43.0


From 35857aea099e1bb32e2e33f94539ad14c3ff81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 24/24] fix: deduplicating only placements that were removed
 again must not read before the updates

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..ae44ea2 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -63,7 +63,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
         }
 
         // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
+        if (new_index >= 0 && diff[new_index].null()) {
             new_index--;
         }
     }
-- 
2.43.0

