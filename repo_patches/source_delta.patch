From ef4a1f0d27f516e643d1857f662fb8ccfb51ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 01/44] fix: Tensor -= scalar and *= scalar call functions that
 do not exist

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 92ce40507512d326fc8b8bc5aa042ec8e599b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 02/44] fix: constructing a tensor from a list or vector of
 values does not compile or copies past its storage

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  2 +-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 19 +++++++++++++------
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..8243be4 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..f6d9141 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,27 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values does not match the shape " + shape_.toString());
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values does not match the shape " + shape_.toString());
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values does not match the shape " + shape_.toString());
+    }
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From 75ef148e2204cceef144b0f5f698478b282993d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 03/44] fix: TensorData built from a non-const pointer takes
 ownership of memory it does not own

---
 smart_dnn/Tensor/TensorData.hpp         | 1 -
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 4 ----
 2 files changed, 5 deletions(-)

diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 8243be4..40d0318 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -20,7 +20,6 @@ public:
     explicit TensorData(Shape dimensions) noexcept;
     TensorData(Shape dimensions, T value) noexcept;
     TensorData(Shape dimensions, const T* data);
-    TensorData(Shape dimensions, T* data) noexcept; // used for slicing.
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index f6d9141..84b002d 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -25,10 +25,6 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, const T* data)
     std::copy_n(data, shape_.size(), data_.get());
 }
 
-TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, T* data) noexcept 
-    : shape_(std::move(dimensions)), data_(data) {}
-
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other) 
     : shape_(other.shape_), data_(std::make_unique<T[]>(other.shape_.size())) {
-- 
2.43.0


From c7071b81191a917f74fb3a0d11b73c632b2c4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 04/44] fix: move assignment leaves the source tensor without
 storage

---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..5d10153 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..775954d 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,15 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        data_ = std::move(other.data_);
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From a9f217fd9ffff0b72ec7d539f8d3149c2ab04c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 05/44] fix: slice copies the wrong elements for every
 dimension but the first and does not check its arguments

---
 smart_dnn/Tensor/Tensor.impl.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 775954d..9b6ccdc 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -295,15 +295,22 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
-
-    int offset = index * strides[dim];
+    std::vector<int> shape = this->data_.shape().getDimensions();
+    if (dim < 0 || dim >= static_cast<int>(shape.size())) {
+        throw std::invalid_argument("Invalid dimension for slice: " + std::to_string(dim));
+    }
+    if (index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Slice index out of bounds for dimension " + std::to_string(dim));
+    }
 
+    const size_t inner = this->data_.stride()[dim];
+    const size_t span = inner * static_cast<size_t>(shape[dim]);
     shape.erase(shape.begin() + dim);
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+    for (size_t i = 0; i < slicedData.size(); ++i) {
+        slicedData[i] = this->data_[(i / inner) * span + static_cast<size_t>(index) * inner + i % inner];
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From a0ebf80ebd0015a2f6d47ce00b5d5efc97bfe335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 06/44] fix: the iterations of the parallel transpose loop
 share their index vectors

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..e844669 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -215,13 +215,13 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
             // Calculate old indices
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
                 if (shape[d] == 0) {
-- 
2.43.0


From cda446b46c8c25c2104e071d80f09de6aa6efa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 07/44] fix: random tensors are filled by a parallel loop
 drawing from the shared engine

---
 smart_dnn/Tensor/TensorOperations.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..b8d990f 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,6 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From c4959c1295a8b1b24c53dd0cd848d65d59c8a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 08/44] fix: sum over all axes throws instead of returning the
 total

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index e844669..e47329e 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -88,6 +88,9 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
+        if (finalShape.empty()) {
+            finalShape.push_back(1);
+        }
         result.reshape(Shape(finalShape));
 
         return result;
-- 
2.43.0


From 9d84ca3b4ad6ddc5c4a4c02134cd2b2b6f0d0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 09/44] fix: variance reads past its sums when the mean tensor
 has more elements than the reduction

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index e47329e..2fee0f9 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -173,6 +173,9 @@ class AdvancedTensorOperations<T, CPUDevice> {
         }
 
         Tensor<T> summedSquaredDiff = sum(squaredDiff, axes);
+        if (summedSquaredDiff.getShape().size() != meanShape.size()) {
+            throw std::invalid_argument("Mean tensor does not match the axes for variance calculation, mean shape: " + meanShape.toString());
+        }
 
         // Ensure the result has the same shape as the mean tensor
         Tensor<T> result(meanShape);
-- 
2.43.0


From 171db3861bfa76e40a23ef5a6ec98061d36335aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 10/44] fix: mean accepts an axis outside the rank when as many
 axes as dimensions are given

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 2fee0f9..578c59b 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -103,6 +103,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
+        for (size_t axis : axes) {
+            if (axis >= tensor.getShape().rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
         if (axes.empty() || axes.size() == tensor.getShape().rank()) {
             return mean(tensor);
         }
-- 
2.43.0


From 689d35ec90492076e0431999a1df35ee5849a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 11/44] fix: the size of a shape with too many elements wraps
 around silently

---
 smart_dnn/Shape/Shape.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..f7ad3d6 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -2,9 +2,11 @@
 #define SHAPE_HPP
 
 #include <iostream>
+#include <limits>
 #include <numeric>
 #include <vector>
 #include <sstream>
+#include <stdexcept>
 
 struct Shape {
     ~Shape() = default;
@@ -108,7 +110,14 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        size_t size = 1;
+        for (int dim : _dimensions) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            size *= static_cast<size_t>(dim);
+        }
+        return size;
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From 33178d7562acdb89855a3226d6b933fef31c38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 12/44] fix: SliceView ignores the end of its ranges and
 accepts steps that are not positive

---
 smart_dnn/Tensor/SliceView.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..81725c3 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,13 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int dim_size = (end_indices_[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -49,6 +50,10 @@ public:
         step_sizes_ = steps;
 
         for (size_t i = 0; i < slices.size(); ++i) {
+            if (steps[i] <= 0) {
+                throw std::runtime_error("Slice steps must be positive");
+            }
+
             int start = slices[i].first;
             int end = slices[i].second;
 
@@ -60,6 +65,7 @@ public:
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From 6baf7571a9fffbcd6a5f60837feada6b7367da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 13/44] fix: constructing a convolution with a square kernel
 and a stride is ambiguous

---
 smart_dnn/Layers/Conv2DLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..5de789e 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -19,7 +19,7 @@ public:
     Conv2DLayer(int inputChannels, int outputChannels, int squareKernalSize, int stride = 1, int padding = 0, int dilation = 1) 
         : Conv2DLayer(inputChannels, outputChannels, squareKernalSize, squareKernalSize, stride, padding, dilation) {}
 
-    Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride = 1, int padding = 0, int dilation = 1) 
+    Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride, int padding, int dilation) 
         : inputChannels(inputChannels), outputChannels(outputChannels), kernelHeight(kernelHeight), kernelWidth(kernelWidth), 
           stride(stride), padding(padding), dilation(dilation) {
         
-- 
2.43.0


From d4cce793cd2fa6ccad49901eda01ef15a87a0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 14/44] fix: Conv2D only asserts that its input has the right
 rank and channels

---
 smart_dnn/Layers/Conv2DLayer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 5de789e..76d72ff 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -33,8 +33,12 @@ public:
     
     */
     TensorType forward(const TensorType& input) override {
-        assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
-        assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
+        if (input.getShape().rank() != 4) {
+            throw std::invalid_argument("Input must be 4D (batch, channels, height, width)");
+        }
+        if (input.getShape()[1] != inputChannels) {
+            throw std::invalid_argument("Input channels must match layer's input channels");
+        }
 
         // Store the input for use in backward pass
         this->input = input;
-- 
2.43.0


From 96244928685c85c4aad1ab047299ae986c568b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 15/44] fix: Conv2D forward ignores stride, padding, dilation
 and all input channels but the first

---
 smart_dnn/Layers/Conv2DLayer.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 76d72ff..36c1656 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -22,6 +22,10 @@ public:
     Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride, int padding, int dilation) 
         : inputChannels(inputChannels), outputChannels(outputChannels), kernelHeight(kernelHeight), kernelWidth(kernelWidth), 
           stride(stride), padding(padding), dilation(dilation) {
+
+        if (stride <= 0 || padding < 0 || dilation <= 0) {
+            throw std::invalid_argument("Stride and dilation must be positive and padding must not be negative");
+        }
         
         initializeWeights();
     }
@@ -47,8 +51,8 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int outputHeight = outputSize(inputHeight, kernelHeight);
+        int outputWidth = outputSize(inputWidth, kernelWidth);
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -60,13 +64,17 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih >= 0 && ih < inputHeight && iw >= 0 && iw < inputWidth) {
+                                        sum += inputData.at({b, ic, ih, iw}) * 
+                                            weightData.at({oc, ic, kh, kw});
+                                    }
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
@@ -192,6 +200,10 @@ private:
     int padding;
     int dilation;
 
+    int outputSize(int inputSize, int kernelSize) const {
+        return (inputSize + 2 * padding - dilation * (kernelSize - 1) - 1) / stride + 1;
+    }
+
     void initializeWeights() {
         weights = TensorType::rand({outputChannels, inputChannels, kernelHeight, kernelWidth});
         biases = TensorType::zeros({outputChannels, 1});
-- 
2.43.0


From ae0182ec176b258be868d4f94f0024d7fdf4f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 16/44] fix: Conv2D backward only uses the first batch item and
 channels and accepts gradients of any shape

---
 smart_dnn/Layers/Conv2DLayer.hpp | 62 ++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 36c1656..042c68a 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -105,39 +105,65 @@ public:
         Shape weightsShape = weightsTensor.getShape();
         Shape gradOutputShape = gradOutput.getShape();
 
+        if (gradOutputShape != Shape({inputShape[0], outputChannels, outputSize(inputShape[2], kernelHeight), outputSize(inputShape[3], kernelWidth)})) {
+            throw std::invalid_argument("Gradient does not have the shape of the layer's output");
+        }
+
         // Initialize gradients
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
         // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
+                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                        biasGradients->getData()[oc] += gradOutput.at({b, oc, oh, ow});
+                    }
+                }
             }
         }
 
         // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
-                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
+        for (int oc = 0; oc < outputChannels; ++oc) {
+            for (int ic = 0; ic < inputChannels; ++ic) {
+                for (int kh = 0; kh < kernelHeight; ++kh) {
+                    for (int kw = 0; kw < kernelWidth; ++kw) {
+                        T sum = T(0);
+                        for (int b = 0; b < gradOutputShape[0]; ++b) {
+                            for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                                for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih >= 0 && ih < inputShape[2] && iw >= 0 && iw < inputShape[3]) {
+                                        sum += inputTensor.at({b, ic, ih, iw}) * gradOutput.at({b, oc, oh, ow});
+                                    }
+                                }
+                            }
+                        }
+                        weightGradients->at({oc, ic, kh, kw}) = sum;
                     }
                 }
-                weightGradients->at({0, 0, kh, kw}) = sum;
             }
         }
 
         // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+        TensorType gradInput(inputShape, T(0));
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
+                for (int ic = 0; ic < inputChannels; ++ic) {
+                    for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                        for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih >= 0 && ih < inputShape[2] && iw >= 0 && iw < inputShape[3]) {
+                                        gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * gradOutput.at({b, oc, oh, ow});
+                                    }
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From c24e0492d243d6e66a1057c0e5e648ebf8c6dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 17/44] fix: max pooling with padding indexes outside the input
 and has the wrong output size

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..36aaf8e 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -14,7 +14,11 @@ class MaxPooling2DLayer : public Layer<T> {
 public:
     MaxPooling2DLayer(int poolSize) : MaxPooling2DLayer(poolSize, poolSize, 0) {}
     MaxPooling2DLayer(int poolSize, int stride) : MaxPooling2DLayer(poolSize, stride, 0) {}
-    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {}
+    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {
+        if (poolSize <= 0 || stride <= 0 || padding < 0 || padding >= poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool size and stride must be positive and padding smaller than the pool size");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (input.getShape().rank() != 4) {
@@ -29,8 +33,8 @@ public:
         int inputWidth = input.getShape()[3];
 
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -82,16 +86,18 @@ private:
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
-        int maxIh = 0, maxIw = 0;
         int ihStart = oh * stride - padding;
         int iwStart = ow * stride - padding;
+        int maxIh = std::max(ihStart, 0), maxIw = std::max(iwStart, 0);
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From c1b91ef889875a2e84fcc2f46d18e205a08ef9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 18/44] fix: max pooling backward reads the dimensions of
 gradients of any rank

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 36aaf8e..d0e4235 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -62,6 +62,12 @@ public:
 
         int batchSize = tensorValue.getShape()[0];
         int inputChannels = tensorValue.getShape()[1];
+        int expectedHeight = (tensorValue.getShape()[2] + 2 * padding - poolSize) / stride + 1;
+        int expectedWidth = (tensorValue.getShape()[3] + 2 * padding - poolSize) / stride + 1;
+        if (gradOutput.getShape() != Shape({batchSize, inputChannels, expectedHeight, expectedWidth})) {
+            throw std::invalid_argument("MaxPooling2DLayer: gradient does not have the shape of the output");
+        }
+
         int outputHeight = gradOutput.getShape()[2];
         int outputWidth = gradOutput.getShape()[3];
 
-- 
2.43.0


From e537716d8abf8c2663ad42ac9f3ffcb2e0aa8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:49 +0000
Subject: [PATCH 19/44] fix: batch normalization keeps running statistics of
 the wrong shape after rank-4 inputs

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..b39bf80 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -25,6 +25,10 @@ public:
             throw std::runtime_error("BatchNormalizationLayer: input tensor must have rank 2 or 4");
         }
 
+        if (shape[1] != numFeatures) {
+            throw std::invalid_argument("BatchNormalizationLayer: input does not have the layer's number of features");
+        }
+
         std::vector<size_t> reductionAxes = (shape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         if (this->trainingMode) {
@@ -40,8 +44,8 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = (momentum * runningMean) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From fc2eb63f9b41f2cdecb1250625f6363781f685fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 20/44] fix: batch normalization reads past the dimensions of
 its rank-1 sums

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index b39bf80..8186df8 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -127,7 +127,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = static_cast<int>(tensor.getShape().size());  // One value per channel
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 3215907cfbfec9ad2bb92b9178a86dfc4dce4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 21/44] fix: batch normalization backward is not the derivative
 of the forward pass

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 8186df8..f11727d 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -66,7 +66,11 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        if (inputShape != normalizedInput->getShape()) {
+            throw std::invalid_argument("BatchNormalizationLayer: gradient does not have the shape of the output");
+        }
+
+        int batchSize = static_cast<int>(inputShape.size()) / numFeatures; // values per feature
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -82,7 +86,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev; // two more factors cancel against the normalized input below
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
-- 
2.43.0


From 2ccaf14b9606f2c1d7de3c5721675552f8c135fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 22/44] fix: dropout draws its mask from a clipped normal
 distribution

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..77a2a50 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -14,8 +14,11 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType(input.getShape());
+            T* maskData = (*mask).getData().data();
+            for (size_t i = 0; i < input.getShape().size(); ++i) {
+                maskData[i] = RandomEngine::getRand() < dropoutRate ? T(0) : T(1);
+            }
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 7e8986ab31fbc473fe5b86d925219bd725a5fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 23/44] fix: dropout backward does not scale the gradient and
 dereferences a missing mask

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 77a2a50..a73b6c9 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -26,11 +26,11 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
-        }
         if (this->trainingMode) {
-            return gradOutput * (*mask);
+            if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+                throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+            }
+            return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
         }
         return gradOutput;
     }
-- 
2.43.0


From 3f8f0d2ab1053c3aca061ab6a7995c5a3f859bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 24/44] fix: dropout accepts rates outside [0, 1) and then
 scales by infinity

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index a73b6c9..2aee90d 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -10,7 +10,11 @@ template <typename T=float>
 class DropoutLayer : public Layer<T> {
     using TensorType = Tensor<T>;
 public:
-    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {}
+    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {
+        if (!(dropoutRate >= T(0) && dropoutRate < T(1))) {
+            throw std::invalid_argument("Dropout rate must be in [0, 1)");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-- 
2.43.0


From 5eb7becb0a101cbd979470a94d07673f184ec725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 25/44] fix: flatten backward uses the shape of an earlier
 input or none at all

---
 smart_dnn/Layers/FlattenLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..496195f 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
@@ -48,6 +49,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("Forward pass must be called before backward");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 7fd1848591e0c92b4c34e71c242c322eef5940b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 26/44] fix: activation layer backward dereferences an input
 that was never set

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..c6df21f 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("Forward pass must be called before backward");
+        }
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From c2356fe0bf655d0378b6255f2efd6fc109edc133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 27/44] fix: cross-entropy reads a second dimension of tensors
 that have none

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..67e45a4 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From 380116ff9952f4e5a1afff4616f6b9f15c7e9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 28/44] fix: the gradient of the cross-entropy is not its
 derivative

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 67e45a4..3a42d1e 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -68,7 +68,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 0e2528c8f0bd98aef646d915b592e46dd2b01fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 29/44] fix: optimizers read gradients that are smaller than
 their weights out of bounds

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 5 +++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 5 +++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..f705763 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -41,6 +41,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         updateLearningRate(learningRateOverride);
 
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..8cb146e 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -36,6 +36,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..4d52509 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -34,6 +34,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 3c9a1d66e4bc8bb05df6e4617200c5293d02dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 30/44] fix: optimizers keep the state of an earlier tensor of
 another size

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 5 ++++-
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 6 +++---
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index f705763..082927a 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -98,7 +98,10 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
+        auto state = m.find(key);
+        if (state == m.end() || state->second.getShape().size() != shape.size()) {
+            m.erase(key);
+            v.erase(key);
             m.emplace(key, Tensor<T>(shape, T(0)));
             v.emplace(key, Tensor<T>(shape, T(0)));
         }
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 8cb146e..8dfd562 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -59,7 +59,7 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
+        if (squaredGrads.find(weightsPtr) == squaredGrads.end() || squaredGrads[weightsPtr]->getShape().size() != size) {
             squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         auto& sqGrads = *squaredGrads[weightsPtr];
@@ -69,7 +69,7 @@ private:
         std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
+            if (meanGrads.find(weightsPtr) == meanGrads.end() || meanGrads[weightsPtr]->getShape().size() != size) {
                 meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             meanGradsPtr = meanGrads[weightsPtr];
@@ -80,7 +80,7 @@ private:
         std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
+            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end() || velocityBuffers[weightsPtr]->getShape().size() != size) {
                 velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             velocityPtr = velocityBuffers[weightsPtr];
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 4d52509..a8af769 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -59,7 +59,7 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
+        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape().size() != size) {
             momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         
-- 
2.43.0


From d8fb9b5417b777e7ef3852cac86ddc92aad2e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 31/44] fix: Adam corrects the bias twice and counts the
 updates of other tensors

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 082927a..ae478db 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -67,6 +67,7 @@ private:
     int batchSize;
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<size_t, int> steps;   // Updates of each tensor, for the bias correction
 
     void updateLearningRate(T learningRateOverride) {
         iterations++;
@@ -81,9 +82,7 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
+        int step = ++steps[key];
 
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
@@ -93,7 +92,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], step);
         }
     }
 
@@ -102,12 +101,13 @@ private:
         if (state == m.end() || state->second.getShape().size() != shape.size()) {
             m.erase(key);
             v.erase(key);
+            steps.erase(key);
             m.emplace(key, Tensor<T>(shape, T(0)));
             v.emplace(key, Tensor<T>(shape, T(0)));
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, int step) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -118,9 +118,9 @@ private:
         vValue = beta2 * vValue + (T(1) - beta2) * averagedGradient * averagedGradient;
 
         // Compute update
-        T mHat = mValue / (T(1) - std::pow(beta1, iterations));
-        T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T mHat = mValue / (T(1) - std::pow(beta1, T(step)));
+        T vHat = vValue / (T(1) - std::pow(beta2, T(step)));
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From 99c49f29adc0882517dc088e411d81ab71ba9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 32/44] fix: the model includes the logger through a directory
 that does not exist

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..bedba9a 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -2,7 +2,7 @@
 #define SMART_DNN_IMPL_HPP
 
 #include "smart_dnn/SmartDNN.hpp"
-#include "smart_dnn/debugging/Logger.hpp"
+#include "smart_dnn/Debugging/Logger.hpp"
 
 namespace smart_dnn {
 
-- 
2.43.0


From 90238101ab7b4eeba7dd18303b84f55d91b90ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 33/44] fix: the model trains without a loss, without targets
 and hands out layers it does not have

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index bedba9a..84b9591 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -16,6 +16,9 @@ void SmartDNN<T>::backward(const Tensor<T>& gradOutput) {
 
 template <typename T>
 void SmartDNN<T>::updateWeights() {
+    if (!optimizer) {
+        throw std::logic_error("The model must be compiled before its weights are updated");
+    }
     for (auto& layer : layers) {
         layer->updateWeights(*optimizer);
     }
@@ -23,11 +26,17 @@ void SmartDNN<T>::updateWeights() {
 
 template <typename T>
 Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
-    return layers[index].get();
+    return layers.at(index).get();
 }
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (!lossFunction || !optimizer) {
+        throw std::logic_error("The model must be compiled before it is trained");
+    }
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("Each input needs exactly one target");
+    }
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From b05761d890b705fa23cbc2ceb6432370d2f627b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 34/44] fix: sigmoid rounds its argument to float

---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
-- 
2.43.0


From 43b06174abbe6587a539e0194a9ccbe64b8cd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 35/44] fix: tanh is NaN for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From af02db99cc76ffd85760480c79324c54355bb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 36/44] fix: softmax backward reads gradients of another shape
 out of bounds

---
 smart_dnn/Activations/Softmax.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..eea6951 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -61,6 +61,10 @@ public:
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
         
+        if (input.getShape() != gradOutput.getShape()) {
+            throw std::invalid_argument("Input and gradOutput must have the same shape");
+        }
+
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
 
-- 
2.43.0


From 7abfaef0efc40f6713b80c04ab20d772aa1aa4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 37/44] fix: the sample generators are defined in every
 translation unit that includes them

---
 smart_dnn/Datasets/SampleGenerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..d3ba4c0 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -8,7 +8,7 @@
 
 namespace smart_dnn {
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
     std::vector<Tensor<float>> inputs;
     std::vector<Tensor<float>> targets;
 
@@ -30,7 +30,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     return {inputs, targets};
 }
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
     std::vector<Tensor<float>> input_batches;
     std::vector<Tensor<float>> target_batches;
 
-- 
2.43.0


From 9ac105b51caa2d27187b3121bffe34068369c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 38/44] fix: the MNIST loader turns the end of a file into data

---
 smart_dnn/Datasets/MNistLoader.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..f28a75b 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -82,7 +82,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -118,7 +118,7 @@ private:
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -127,9 +127,19 @@ private:
         return labels;
     }
 
+    unsigned char readByte(std::ifstream& file) {
+        int value = file.get();
+        if (value == std::ifstream::traits_type::eof()) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
+        return static_cast<unsigned char>(value);
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
-        file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 5bd5ab501e7f3c44959e01dce3c35ffe069ce3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 39/44] fix: the MNIST loader reads more samples than the files
 have and accepts labels above 9

---
 smart_dnn/Datasets/MNistLoader.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index f28a75b..30e3903 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -14,7 +14,11 @@ class MNISTLoader {
     using TensorType = Tensor<T>;
 public:
     MNISTLoader(const std::string& imagesPath, const std::string& labelsPath, int batchSize = 1, int numSamples = -1) 
-        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {}
+        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {
+        if (batchSize <= 0) {
+            throw std::invalid_argument("Batch size must be positive");
+        }
+    }
 
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
         std::vector<TensorType> images = loadImages();
@@ -67,7 +71,7 @@ private:
         int numCols = readInt(file);
 
         if (numSamples != -1) {
-            numImages = numSamples;
+            numImages = std::min(numImages, numSamples);
         }
 
         if (magicNumber != 2051) {
@@ -105,7 +109,7 @@ private:
         int numLabels = readInt(file);
 
         if (numSamples != -1) {
-            numLabels = numSamples;
+            numLabels = std::min(numLabels, numSamples);
         }
 
         if (magicNumber != 2049) {
@@ -119,6 +123,9 @@ private:
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
                 unsigned char digit = readByte(file);
+                if (digit > 9) {
+                    throw std::runtime_error("Label out of range: " + std::to_string(digit));
+                }
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
-- 
2.43.0


From 9e89f9e98af9a3f63ad40c6a3ab6d640503c0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:50 +0000
Subject: [PATCH 40/44] fix: drawing a tensor with negative values reads before
 the table of characters

---
 smart_dnn/Datasets/MNistLoader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 30e3903..183208b 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -44,7 +44,7 @@ public:
                 float value = input.at(indices);
                 
                 // Map the value to an ASCII character
-                int index = std::min(static_cast<int>(value * numLevels), numLevels - 1);
+                int index = std::max(0, std::min(static_cast<int>(value * numLevels), numLevels - 1));
                 oss << asciiChars[index];
             }
             oss << "\n";
-- 
2.43.0


From 8f29ea5b026c5809cd1fb10f90de55eb0fdfe4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:52 +0000
Subject: [PATCH 41/44] fix: headers do not compile unless the user includes
 standard headers and other headers first

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 1 +
 smart_dnn/Regularisation/DropoutLayer.hpp            | 1 +
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp       | 1 +
 smart_dnn/Shape/ShapeOperations.hpp                  | 1 +
 smart_dnn/Tensor/BroadcastView.hpp                   | 2 +-
 smart_dnn/Tensor/TensorData.hpp                      | 1 +
 smart_dnn/Tensor/TensorFactory.hpp                   | 4 +++-
 7 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index f11727d..00f326f 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -2,6 +2,7 @@
 #define BATCH_NORMALIZATION_LAYER_HPP
 
 #include "smart_dnn/Tensor/Tensor.hpp"
+#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
 #include "smart_dnn/Layer.hpp"
 #include <cmath>
 #include <optional>
diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 2aee90d..1fb74c5 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -1,6 +1,7 @@
 #ifndef DROPOUT_LAYER_HPP
 #define DROPOUT_LAYER_HPP
 
+#include <optional>
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Layer.hpp"
 
diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index d0e4235..3cdd97a 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -1,6 +1,7 @@
 #ifndef MAX_POOLING_2D_LAYER_HPP
 #define MAX_POOLING_2D_LAYER_HPP
 
+#include <optional>
 #include <algorithm>
 #include <limits>
 #include "smart_dnn/Layer.hpp"
diff --git a/smart_dnn/Shape/ShapeOperations.hpp b/smart_dnn/Shape/ShapeOperations.hpp
index c00f3ea..b1a3a68 100644
--- a/smart_dnn/Shape/ShapeOperations.hpp
+++ b/smart_dnn/Shape/ShapeOperations.hpp
@@ -1,6 +1,7 @@
 #ifndef SHAPE_OPERATIONS_HPP
 #define SHAPE_OPERATIONS_HPP
 
+#include <algorithm>
 #include "smart_dnn/Shape/Shape.hpp"
 
 namespace smart_dnn {
diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index ec2590b..198dfa3 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -3,7 +3,7 @@
 
 #include "smart_dnn/Shape/ShapeOperations.hpp"
 #include "smart_dnn/Shape/Shape.hpp"
-#include "smart_dnn/Tensor/Tensor.hpp"
+#include "smart_dnn/Tensor/TensorData.hpp"
 #include "smart_dnn/Tensor/DeviceTypes.hpp"
 #include <vector>
 #include <stdexcept>
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 40d0318..94cdd31 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -1,6 +1,7 @@
 #ifndef TENSOR_DATA_HPP
 #define TENSOR_DATA_HPP
 
+#include <memory>
 #include "smart_dnn/Shape/Shape.hpp"
 #include "smart_dnn/Shape/ShapeOperations.hpp"
 #include "smart_dnn/Tensor/DeviceTypes.hpp"
diff --git a/smart_dnn/Tensor/TensorFactory.hpp b/smart_dnn/Tensor/TensorFactory.hpp
index e973a21..70ba288 100644
--- a/smart_dnn/Tensor/TensorFactory.hpp
+++ b/smart_dnn/Tensor/TensorFactory.hpp
@@ -1,7 +1,7 @@
 #ifndef TENSOR_FACTORY_HPP
 #define TENSOR_FACTORY_HPP
 
-#include "smart_dnn/Tensor/Tensor.hpp"
+#include "smart_dnn/Tensor/TensorOperations.hpp"
 
 namespace smart_dnn {
 
@@ -63,4 +63,6 @@ Tensor<T, DeviceType> identity(int size) {
 
 } // namespace smart_dnn
 
+#include "smart_dnn/Tensor/Tensor.hpp"
+
 #endif // TENSOR_FACTORY_HPP
\ No newline at end of file
-- 
2.43.0


From e5839769594e39ce51bf1691cf8094353b4c7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 42/44] fix: reading gradients that were never computed
 dereferences an empty optional

---
 smart_dnn/Layers/Conv2DLayer.hpp         | 4 ++--
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 042c68a..14825c1 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -196,11 +196,11 @@ public:
     }
 
     TensorType getWeightGradients() const {
-        return *weightGradients;
+        return weightGradients.value();
     }
 
     TensorType getBiasGradients() const {
-        return *biasGradients;
+        return biasGradients.value();
     }
 
     void setWeights(const TensorType& newWeights) {
diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..d600549 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -111,11 +111,11 @@ public:
     }
 
     TensorType getWeightGradients() const {
-        return *weightGradients;
+        return weightGradients.value();
     }
 
     TensorType getBiasGradients() const {
-        return *biasGradients;
+        return biasGradients.value();
     }
 
     void setWeights(const TensorType& newWeights) {
-- 
2.43.0


From a9aa498e399f4be7dbc9a77ffb47117a371be151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 43/44] fix: a convolution with biases of another shape writes
 its bias gradient out of bounds

---
 smart_dnn/Layers/Conv2DLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 14825c1..b6e97c2 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -208,6 +208,9 @@ public:
     }
 
     void setBiases(const TensorType& newBiases) {
+        if (newBiases.getShape() != biases->getShape()) {
+            throw std::invalid_argument("Biases must have shape (outputChannels, 1)");
+        }
         biases = newBiases;
     }
 
-- 
2.43.0


From c37103077d1e958398b72d6fb3d1bbc879de56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:06 +0000
Subject: [PATCH 44/44] fix: toAsciiArt keeps the tensor's element type instead
 of rounding through float

---
 smart_dnn/Datasets/MNistLoader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 183208b..7a3f6f8 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -41,7 +41,7 @@ public:
                 std::vector<int> indices = baseIndices;
                 indices.push_back(i);
                 indices.push_back(j);
-                float value = input.at(indices);
+                T value = input.at(indices);
                 
                 // Map the value to an ASCII character
                 int index = std::max(0, std::min(static_cast<int>(value * numLevels), numLevels - 1));
-- 
2.43.0

