From e91f7dc6a25dea374394622f2c4a4652ac9b5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 01/44] fix: reject shapes whose element count overflows size_t

---
 smart_dnn/Shape/Shape.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..f7ad3d6 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -2,9 +2,11 @@
 #define SHAPE_HPP
 
 #include <iostream>
+#include <limits>
 #include <numeric>
 #include <vector>
 #include <sstream>
+#include <stdexcept>
 
 struct Shape {
     ~Shape() = default;
@@ -108,7 +110,14 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        size_t size = 1;
+        for (int dim : _dimensions) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            size *= static_cast<size_t>(dim);
+        }
+        return size;
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From 8529cf393567db1a4b0e6e6cb7b910cf7fb54ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 02/44] fix: tensor -= scalar and tensor *= scalar call the
 existing in-place operations

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 7e75e152cd6e556af5179819fe7abd28ddd70771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 03/44] fix: Tensor::slice gathers the selected elements for
 every dimension and validates its arguments

---
 smart_dnn/Tensor/Tensor.impl.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..96fbd5c 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -286,15 +286,28 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
+    std::vector<int> shape = this->data_.shape().getDimensions();
+    if (dim < 0 || dim >= static_cast<int>(shape.size())) {
+        throw std::out_of_range("Slice dimension out of range");
+    }
+    if (index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Slice index out of range");
+    }
 
-    int offset = index * strides[dim];
+    const size_t length = static_cast<size_t>(shape[dim]);
+    const size_t inner = this->data_.stride()[dim];        // elements per step along dim
+    const size_t outer = this->data_.size() / (length * inner);
 
     shape.erase(shape.begin() + dim);
+    if (shape.empty()) {
+        shape.push_back(1);
+    }
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+    const T* source = this->data_.data() + static_cast<size_t>(index) * inner;
+    for (size_t block = 0; block < outer; ++block) {
+        std::copy_n(source + block * length * inner, inner, slicedData.data() + block * inner);
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From af6667d6d2ae7cad406d455655c22d9b2837941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 04/44] fix: tensor value lists must match the shape's element
 count (no overflow, vector constructors compile)

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  2 +-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 19 +++++++++++++------
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 96fbd5c..cb29d65 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..8243be4 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..f2be7d6 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,27 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape");
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape");
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape");
+    }
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From 763e3d21429c60da0722d289fd65e57babb37563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 05/44] fix: SliceView honours the end of each slice and
 rejects non-positive steps

---
 smart_dnn/Tensor/SliceView.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..a819240 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,13 +16,17 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
-            new_dims.push_back(dim_size);
+            if (step_sizes_[i] <= 0) {
+                throw std::invalid_argument("Slice steps must be positive");
+            }
+            int length = end_indices_[i] - start_indices_[i];
+            new_dims.push_back(length > 0 ? (length - 1) / step_sizes_[i] + 1 : 0); // Shape rejects an empty slice
         }
         sliced_shape_ = Shape(new_dims);
     }
@@ -46,6 +50,7 @@ public:
         }
 
         start_indices_.reserve(slices.size());
+        end_indices_.reserve(slices.size());
         step_sizes_ = steps;
 
         for (size_t i = 0; i < slices.size(); ++i) {
@@ -60,6 +65,7 @@ public:
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From b1be029b6e975e91806c74aa7831d0121aa8a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 06/44] fix: summing over every axis yields a one-element
 tensor instead of throwing

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..6c3bc2f 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -88,6 +88,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
+        if (finalShape.empty()) {
+            finalShape.push_back(1);
+        }
+
         result.reshape(Shape(finalShape));
 
         return result;
-- 
2.43.0


From a1f0218933ed4df3cb727930e1fb89f919e1cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 07/44] fix: mean over axes validates every axis and counts a
 repeated axis once

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 6c3bc2f..4b8723a 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -104,11 +104,21 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
-        if (axes.empty() || axes.size() == tensor.getShape().rank()) {
+        const auto& shape = tensor.getShape();
+
+        // Unique axes in descending order
+        std::vector<size_t> sortedAxes = axes;
+        std::sort(sortedAxes.begin(), sortedAxes.end(), std::greater<size_t>());
+        sortedAxes.erase(std::unique(sortedAxes.begin(), sortedAxes.end()), sortedAxes.end());
+
+        if (!sortedAxes.empty() && sortedAxes.front() >= shape.rank()) {
+            throw std::invalid_argument("Invalid axis for mean calculation");
+        }
+
+        if (sortedAxes.empty() || sortedAxes.size() == shape.rank()) {
             return mean(tensor);
         }
 
-        const auto& shape = tensor.getShape();
         Tensor<T> result = tensor;
         int totalElements = 1;
 
@@ -121,14 +131,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
-        // Sort axes in descending order
-        std::vector<size_t> sortedAxes = axes;
-        std::sort(sortedAxes.begin(), sortedAxes.end(), std::greater<size_t>());
-
         for (size_t axis : sortedAxes) {
-            if (axis >= result.getShape().rank() || axis < 0) {
-                throw std::invalid_argument("Invalid axis for mean calculation");
-            }
             result = sum(result, axis);
         }
 
-- 
2.43.0


From e09e752c4923db87167b18c15840486f3f548839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 08/44] fix: variance over axes counts a repeated axis once and
 rejects a mean of another shape

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 4b8723a..844c363 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -154,11 +154,15 @@ class AdvancedTensorOperations<T, CPUDevice> {
         const auto& meanShape = meanTensor.getShape();
 
         int totalElements = 1;
+        std::vector<bool> counted(shape.rank(), false);
         for (size_t axis : axes) {
             if (axis < 0 || axis >= shape.rank()) {
                 throw std::runtime_error("Invalid axis for variance calculation: " + std::to_string(axis));
             }
-            totalElements *= shape[axis];
+            if (!counted[axis]) {
+                totalElements *= shape[axis];
+                counted[axis] = true;
+            }
         }
         // Create a BroadcastView of the mean tensor
         BroadcastView<T, CPUDevice> broadcastedMean(meanTensor.getData(), shape);
@@ -178,6 +182,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
 
         Tensor<T> summedSquaredDiff = sum(squaredDiff, axes);
 
+        if (summedSquaredDiff.getShape().size() != meanShape.size()) {
+            throw std::invalid_argument("Mean tensor does not match the axes of the variance calculation");
+        }
+
         // Ensure the result has the same shape as the mean tensor
         Tensor<T> result(meanShape);
         for (size_t i = 0; i < result.getData().size(); ++i) {
-- 
2.43.0


From d19f8f1fadf67d5a50b932a0ed390b25d0318233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 09/44] fix: transpose no longer shares its index buffers
 between OpenMP threads

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 844c363..7446baf 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -230,12 +230,14 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            // Index buffers are private to the iteration
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From cb656a7184ea8c6c7f3524d4b9c9d0fa792d5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 10/44] fix: createRandom draws from the shared random engine
 sequentially

---
 smart_dnn/Tensor/TensorOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..ed6c2b7 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,7 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
+        // Sequential: the random engine is shared and not thread-safe
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From 253b8b5fb75c3e185eaef763ab490c976266cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 11/44] fix: a moved-from tensor stays a valid one-element
 tensor after move assignment

---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..5d10153 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index cb29d65..862e07d 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,15 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        data_ = std::move(other.data_);
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From f59481a4737779be00fef6ea89bc06db7b6d9b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 12/44] fix: Conv2D forward sums over input channels and
 honours stride, padding and dilation

---
 smart_dnn/Layers/Conv2DLayer.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..7a3bf9e 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -43,8 +43,8 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int outputHeight = (inputHeight + 2 * padding - dilation * (kernelHeight - 1) - 1) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - dilation * (kernelWidth - 1) - 1) / stride + 1;
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -56,13 +56,18 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) {
+                                        continue;
+                                    }
+                                    sum += inputData.at({b, ic, ih, iw}) * 
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
-- 
2.43.0


From c5fdc14ecab1e989aba5acee4051d233c6263707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 13/44] fix: Conv2D rejects unusable inputs and parameters with
 exceptions instead of assert or division by zero

---
 smart_dnn/Layers/Conv2DLayer.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7a3bf9e..3e98b45 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -22,6 +22,9 @@ public:
     Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride = 1, int padding = 0, int dilation = 1) 
         : inputChannels(inputChannels), outputChannels(outputChannels), kernelHeight(kernelHeight), kernelWidth(kernelWidth), 
           stride(stride), padding(padding), dilation(dilation) {
+        if (stride <= 0 || dilation <= 0 || padding < 0) {
+            throw std::invalid_argument("Stride and dilation must be positive and padding non-negative");
+        }
         
         initializeWeights();
     }
@@ -33,8 +36,16 @@ public:
     
     */
     TensorType forward(const TensorType& input) override {
-        assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
-        assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
+        if (input.getShape().rank() != 4) {
+            throw std::invalid_argument("Input must be 4D (batch, channels, height, width)");
+        }
+        if (input.getShape()[1] != inputChannels) {
+            throw std::invalid_argument("Input channels must match layer's input channels");
+        }
+        if (input.getShape()[2] + 2 * padding < dilation * (kernelHeight - 1) + 1 ||
+            input.getShape()[3] + 2 * padding < dilation * (kernelWidth - 1) + 1) {
+            throw std::invalid_argument("Kernel does not fit in the padded input");
+        }
 
         // Store the input for use in backward pass
         this->input = input;
-- 
2.43.0


From e7d3fa2b01b7e03c3818bfe153f125e2698af9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 14/44] fix: Conv2D backward accumulates over the batch and
 every channel with the layer's geometry

---
 smart_dnn/Layers/Conv2DLayer.hpp | 56 ++++++++++++++++----------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 3e98b45..2dccfd9 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -109,39 +109,39 @@ public:
         Shape weightsShape = weightsTensor.getShape();
         Shape gradOutputShape = gradOutput.getShape();
 
+        int inputHeight = inputShape[2];
+        int inputWidth = inputShape[3];
+        int outputHeight = (inputHeight + 2 * padding - dilation * (kernelHeight - 1) - 1) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - dilation * (kernelWidth - 1) - 1) / stride + 1;
+        if (gradOutputShape != Shape({inputShape[0], outputChannels, outputHeight, outputWidth})) {
+            throw std::invalid_argument("Gradient shape must match the shape of the forward output");
+        }
+
         // Initialize gradients
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
-        // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
-            }
-        }
-
-        // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
-                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
-                    }
-                }
-                weightGradients->at({0, 0, kh, kw}) = sum;
-            }
-        }
+        TensorType gradInput(inputShape, T(0));
 
-        // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+        for (int b = 0; b < inputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
+                for (int oh = 0; oh < outputHeight; ++oh) {
+                    for (int ow = 0; ow < outputWidth; ++ow) {
+                        T grad = gradOutput.at({b, oc, oh, ow});
+                        biasGradients->at({oc, 0}) += grad;
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) {
+                                        continue;
+                                    }
+                                    weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 3080b0b20389b4cdab2213bed8b40c8020597956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:09 +0000
Subject: [PATCH 15/44] fix: dropout keeps each element with probability 1 -
 rate (uniform draws, not clamped normal ones)

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..88b9041 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -14,8 +14,10 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType(input.getShape(), T(0));
+            for (T& keep : mask->getData()) {
+                keep = T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0);
+            }
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 3982693c71e5c7133b9820fbf04c84b97d0060c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 16/44] fix: dropout backward applies the forward scaling and
 does not dereference a missing mask

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 88b9041..291cd78 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -25,11 +25,11 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
-        }
         if (this->trainingMode) {
-            return gradOutput * (*mask);
+            if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+                throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+            }
+            return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
         }
         return gradOutput;
     }
-- 
2.43.0


From d76d64d85f0788f94d20a18bd4b97218d473bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 17/44] fix: dropout rejects rates outside [0, 1), for which
 its scaling is not finite

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 291cd78..c570be2 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -10,7 +10,11 @@ template <typename T=float>
 class DropoutLayer : public Layer<T> {
     using TensorType = Tensor<T>;
 public:
-    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {}
+    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {
+        if (!(dropoutRate >= T(0) && dropoutRate < T(1))) {
+            throw std::invalid_argument("Dropout rate must be in [0, 1).");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-- 
2.43.0


From 5ec7013820bb5fc45f64ef347c0d3414dfbba575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 18/44] fix: batch normalisation no longer reads dimension 1 of
 its rank-1 statistics

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..37beb90 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -123,7 +123,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = numFeatures;  // Preserve the channel dimension
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 9607590cf87e9e5e943fb5c12b26557e86582573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 19/44] fix: batch normalisation backward uses the right power
 of the deviation and the reduced element count

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 37beb90..111a07e 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -62,7 +62,8 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        // Number of elements each feature's statistics were taken over
+        size_t reducedCount = inputShape.size() / numFeatures;
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -78,7 +79,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev; // normalizedInput already carries the other two factors
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
@@ -86,8 +87,8 @@ public:
 
         
         TensorType dInput = dNormalized * invStdDev +
-                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
-                            dMean / T(batchSize);
+                            dVariance * T(2) * (*normalizedInput) / T(reducedCount) +
+                            dMean / T(reducedCount);
 
         gammaGrad = dGamma;
         betaGrad = dBeta;
-- 
2.43.0


From 99756303a9ad9792794bba68397d0912d3e777c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 20/44] fix: batch normalisation rejects inputs with another
 feature count and gradients of another shape

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 111a07e..d726c36 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -25,6 +25,10 @@ public:
             throw std::runtime_error("BatchNormalizationLayer: input tensor must have rank 2 or 4");
         }
 
+        if (shape[1] != numFeatures) {
+            throw std::invalid_argument("BatchNormalizationLayer: dimension 1 of the input must be the number of features");
+        }
+
         std::vector<size_t> reductionAxes = (shape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         if (this->trainingMode) {
@@ -61,6 +65,9 @@ public:
         }
 
         const auto& inputShape = gradOutput.getShape();
+        if (inputShape != normalizedInput->getShape()) {
+            throw std::invalid_argument("BatchNormalizationLayer: gradient shape must match the forward input");
+        }
         
         // Number of elements each feature's statistics were taken over
         size_t reducedCount = inputShape.size() / numFeatures;
-- 
2.43.0


From 66e67e075ad7fdb4decacb5bba3f3c5dec5aa5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 21/44] fix: fully connected backward returns a gradient of the
 input's shape for one-dimensional inputs

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..ed06340 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,9 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        if (input->getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());
+        }
         return gradInput;
     }
 
-- 
2.43.0


From 283537aa46617f20bcb426ce79087fd5cd4054c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 22/44] fix: flatten remembers two-dimensional inputs and
 rejects backward before forward

---
 smart_dnn/Layers/FlattenLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..d9dffda 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
@@ -48,6 +49,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 35feb7bc8430682dc07bf6f3167813b897861595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 23/44] fix: activation layer rejects backward before forward

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..7cb3750 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("ActivationLayer: forward must be called before backward");
+        }
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From 5709cf92edfcea4f4e1a3a3631c493ac3c93c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 24/44] fix: tanh no longer overflows to NaN for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From 0442c104d13ed17ecc989e603c6a70a3baefb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 25/44] fix: sigmoid keeps the precision of its element type

---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
-- 
2.43.0


From 6f17fd7af5b76fcf66d572ece12ea39feacaa96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 26/44] fix: softmax backward rejects gradients of another size
 instead of reading past them

---
 smart_dnn/Activations/Softmax.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..c1b4a9e 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -61,6 +61,10 @@ public:
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
         
+        if (gradOutput.getShape().size() != input.getShape().size()) {
+            throw std::invalid_argument("gradOutput must have as many elements as input");
+        }
+
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
 
-- 
2.43.0


From 373ff76b89c92618d6ac9f62a906b1b1a90edafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 27/44] fix: max pooling honours its padding instead of failing
 on negative indices

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..fe6a6c5 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -29,8 +29,8 @@ public:
         int inputWidth = input.getShape()[3];
 
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -88,10 +88,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From 47da07c16891d4b1aefbfdc0d40ce3e17b294eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 28/44] fix: max pooling rejects unusable parameters and inputs
 smaller than the window

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index fe6a6c5..1612d53 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -14,13 +14,21 @@ class MaxPooling2DLayer : public Layer<T> {
 public:
     MaxPooling2DLayer(int poolSize) : MaxPooling2DLayer(poolSize, poolSize, 0) {}
     MaxPooling2DLayer(int poolSize, int stride) : MaxPooling2DLayer(poolSize, stride, 0) {}
-    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {}
+    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {
+        if (poolSize <= 0 || stride <= 0 || padding < 0 || padding >= poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool size and stride must be positive and padding in [0, poolSize)");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (input.getShape().rank() != 4) {
             throw std::runtime_error("MaxPooling2DLayer: input tensor must have rank 4");
         }
 
+        if (input.getShape()[2] + 2 * padding < poolSize || input.getShape()[3] + 2 * padding < poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pooling window does not fit in the padded input");
+        }
+
         this->input = input;
 
         int batchSize = input.getShape()[0];
-- 
2.43.0


From 50288df0deb331a74cb240caa217113f7f600329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 29/44] fix: max pooling backward rejects gradients of another
 shape

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 1612d53..95ba838 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -66,8 +66,11 @@ public:
 
         int batchSize = tensorValue.getShape()[0];
         int inputChannels = tensorValue.getShape()[1];
-        int outputHeight = gradOutput.getShape()[2];
-        int outputWidth = gradOutput.getShape()[3];
+        int outputHeight = (tensorValue.getShape()[2] + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (tensorValue.getShape()[3] + 2 * padding - poolSize) / stride + 1;
+        if (gradOutput.getShape() != Shape({batchSize, inputChannels, outputHeight, outputWidth})) {
+            throw std::invalid_argument("MaxPooling2DLayer: gradient shape must match the shape of the forward output");
+        }
 
         for (int n = 0; n < batchSize; ++n) {
             for (int ic = 0; ic < inputChannels; ++ic) {
-- 
2.43.0


From 958e67b121ab2764e35d6df801f3ffeb2e0f9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 30/44] fix: cross-entropy gradient is the derivative of the
 loss with respect to the prediction

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..d8e4a3b 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -62,7 +62,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 9e81958f08c2914c120069b4a56c87fe601aa3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 31/44] fix: cross-entropy rejects tensors that are not (batch,
 classes)

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index d8e4a3b..3a42d1e 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From b102de6475927492712876f448cc6e7478790ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:48 +0000
Subject: [PATCH 32/44] fix: optimizers reject gradients with another element
 count than their weights

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 5 +++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 5 +++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..8a07a39 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -41,6 +41,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient must have as many elements as its weight!");
+            }
+        }
 
         updateLearningRate(learningRateOverride);
 
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..2d4612d 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -36,6 +36,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient must have as many elements as its weight!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..7505e50 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -34,6 +34,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("A gradient must have as many elements as its weight!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 85c45bbb11efa8b2742fedddcd123a9454dff616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 33/44] fix: optimizer state of a tensor of another shape at
 the same address is not reused

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    |  7 ++++---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 13 ++++++++++---
 smart_dnn/Optimizers/SGDOptimizer.hpp     |  3 ++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 8a07a39..a0b6314 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -98,9 +98,10 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+        auto it = m.find(key);
+        if (it == m.end() || it->second.getShape() != shape) {
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
         }
     }
 
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 2d4612d..d5da251 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -59,7 +59,7 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
+        if (isStale(squaredGrads, weightsPtr, weight)) {
             squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         auto& sqGrads = *squaredGrads[weightsPtr];
@@ -69,7 +69,7 @@ private:
         std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
+            if (isStale(meanGrads, weightsPtr, weight)) {
                 meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             meanGradsPtr = meanGrads[weightsPtr];
@@ -80,7 +80,7 @@ private:
         std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
+            if (isStale(velocityBuffers, weightsPtr, weight)) {
                 velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             velocityPtr = velocityBuffers[weightsPtr];
@@ -125,6 +125,13 @@ private:
         }
     }
 
+    // No buffer yet, or one left behind by a tensor of another shape at the same address
+    static bool isStale(const std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers,
+                        uintptr_t key, const Tensor<T>& weight) {
+        auto it = buffers.find(key);
+        return it == buffers.end() || it->second->getShape() != weight.getShape();
+    }
+
     T learningRate;
     T alpha;
     T epsilon;
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 7505e50..a13749d 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -59,7 +59,8 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
+        auto existing = momentumBuffers.find(weightsPtr);
+        if (existing == momentumBuffers.end() || existing->second->getShape() != weight.getShape()) {
             momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         
-- 
2.43.0


From fbba6120b8b8d14180b7abf99706a22555e6c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 34/44] fix: Adam corrects the bias of its moment estimates
 once, not twice

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index a0b6314..50624d4 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -81,9 +81,7 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
+        T alphaT = learningRate; // the bias correction is applied to mHat and vHat
 
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
-- 
2.43.0


From ba5fcb2b60134d8764c8dcd34811eedefe9e0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 35/44] fix: Adam counts steps per tensor, so later layers get
 the right bias correction and decay

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 50624d4..26c4fee 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -47,9 +47,10 @@ public:
             }
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
+            // Each tensor counts its own steps: an optimizer serves every layer of a model
+            iterations = nextStep(reinterpret_cast<size_t>(&weights[i].get()), weights[i].get().getShape());
+            updateLearningRate(learningRateOverride);
             updateTensor(weights[i].get(), gradients[i].get());
         }
     }
@@ -68,8 +69,17 @@ private:
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
 
+    std::unordered_map<size_t, int> steps;   // Number of updates of each tensor
+
+    int nextStep(size_t key, const Shape& shape) {
+        auto it = m.find(key);
+        if (it == m.end() || it->second.getShape() != shape) {
+            steps[key] = 0;
+        }
+        return ++steps[key];
+    }
+
     void updateLearningRate(T learningRateOverride) {
-        iterations++;
         if (learningRateOverride <= T(0)) {
             learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         } else {
-- 
2.43.0


From 6c54371c9c315154d44d62784aa39d5689a5e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 36/44] fix: centered RMSProp no longer takes the square root
 of a variance rounded below zero

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index d5da251..6fd42bc 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -105,7 +105,7 @@ private:
                 
                 // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
                 T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
-                denom = std::sqrt(variance + epsilon);
+                denom = std::sqrt(std::max(variance, T(0)) + epsilon); // rounding may leave it slightly negative
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
                 denom = std::sqrt(sqGradsData[j] + epsilon);
-- 
2.43.0


From f48c334bb9baef909b8cde00236f3cece21a5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 37/44] fix: model header includes the logger by its real,
 case-sensitive path

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..bedba9a 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -2,7 +2,7 @@
 #define SMART_DNN_IMPL_HPP
 
 #include "smart_dnn/SmartDNN.hpp"
-#include "smart_dnn/debugging/Logger.hpp"
+#include "smart_dnn/Debugging/Logger.hpp"
 
 namespace smart_dnn {
 
-- 
2.43.0


From d61546ab5c8546238070eb6b2b77d989172e7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 38/44] fix: model rejects training before compile, mismatched
 targets and bad layer indices

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index bedba9a..70dadd6 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -16,6 +16,9 @@ void SmartDNN<T>::backward(const Tensor<T>& gradOutput) {
 
 template <typename T>
 void SmartDNN<T>::updateWeights() {
+    if (!optimizer) {
+        throw std::runtime_error("SmartDNN: compile must be called before updating weights");
+    }
     for (auto& layer : layers) {
         layer->updateWeights(*optimizer);
     }
@@ -23,11 +26,18 @@ void SmartDNN<T>::updateWeights() {
 
 template <typename T>
 Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
-    return layers[index].get();
+    return layers.at(index).get();
 }
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("SmartDNN: compile must be called before training");
+    }
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("SmartDNN: every input needs a target");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From d0c3977afc55e33ffde5628d33bc9073e2753e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 39/44] fix: MNIST loader rejects truncated files instead of
 inventing data

---
 smart_dnn/Datasets/MNistLoader.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..fdc6de2 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -82,7 +82,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -118,7 +118,7 @@ private:
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -127,9 +127,20 @@ private:
         return labels;
     }
 
+    unsigned char readByte(std::ifstream& file) {
+        int byte = file.get();
+        if (!file) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
+        return static_cast<unsigned char>(byte);
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
         file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 0243539e56d65534ec08b0bb3093463963581429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 40/44] fix: dataset batch sizes must be positive (zero looped
 forever or divided by zero)

---
 smart_dnn/Datasets/MNistLoader.hpp     | 6 +++++-
 smart_dnn/Datasets/SampleGenerator.hpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index fdc6de2..8ffd564 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -14,7 +14,11 @@ class MNISTLoader {
     using TensorType = Tensor<T>;
 public:
     MNISTLoader(const std::string& imagesPath, const std::string& labelsPath, int batchSize = 1, int numSamples = -1) 
-        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {}
+        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {
+        if (batchSize <= 0) {
+            throw std::invalid_argument("MNIST batch size must be positive");
+        }
+    }
 
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
         std::vector<TensorType> images = loadImages();
diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..d5bb376 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -31,6 +31,10 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
 }
 
 std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+    if (batch_size <= 0) {
+        throw std::invalid_argument("Batch size must be positive");
+    }
+
     std::vector<Tensor<float>> input_batches;
     std::vector<Tensor<float>> target_batches;
 
-- 
2.43.0


From 3edfc71d4d2fd3109c4d2943f1eabbba39251947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 41/44] fix: sample generators are inline so that two
 translation units can use them

---
 smart_dnn/Datasets/SampleGenerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index d5bb376..fb3b0cf 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -8,7 +8,7 @@
 
 namespace smart_dnn {
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
     std::vector<Tensor<float>> inputs;
     std::vector<Tensor<float>> targets;
 
@@ -30,7 +30,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     return {inputs, targets};
 }
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
     if (batch_size <= 0) {
         throw std::invalid_argument("Batch size must be positive");
     }
-- 
2.43.0


From f5fdf140f49ccc0b35045aacedc31b11bbbb586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 42/44] fix: batch normalisation running statistics keep shape
 {1, numFeatures} after rank-4 batches

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index d726c36..626bc56 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -44,8 +44,9 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            // The running statistics stay {1, numFeatures}, whatever the rank of the batch
+            runningMean = (momentum * runningMean) + ((1 - momentum) * reshapeForBroadcast(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * reshapeForBroadcast(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From f501756c09632c6adae3679c963fe30fe275b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 43/44] fix: batched sample generator no longer overflows on
 very large batch sizes

---
 smart_dnn/Datasets/SampleGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index fb3b0cf..63c6ef4 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -43,7 +43,7 @@ inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generat
     std::uniform_real_distribution<> input_dist(0, 100.0);
     std::normal_distribution<> noise_dist(0, noise);
 
-    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
+    int num_batches = num_samples / batch_size + (num_samples % batch_size > 0 ? 1 : 0);  // Ceiling division
 
     for (int batch = 0; batch < num_batches; ++batch) {
         int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
-- 
2.43.0


From ee310bcfc9c602e3e53fedc6eaeb54d0972f21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:27 +0000
Subject: [PATCH 44/44] fix: SGD and RMSProp own their state buffers, so a
 copied optimizer no longer shares them with the original

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 28 ++++++++++-------------
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 10 ++++----
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 6fd42bc..794a0da 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -60,31 +60,27 @@ private:
         
         // Get or create squared gradients buffer
         if (isStale(squaredGrads, weightsPtr, weight)) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+            squaredGrads.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
         }
-        auto& sqGrads = *squaredGrads[weightsPtr];
+        auto& sqGrads = squaredGrads.at(weightsPtr);
         T* sqGradsData = sqGrads.getData().data();
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
             if (isStale(meanGrads, weightsPtr, weight)) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+                meanGrads.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
             }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
+            meanGradsData = meanGrads.at(weightsPtr).getData().data();
         }
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
             if (isStale(velocityBuffers, weightsPtr, weight)) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+                velocityBuffers.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
             }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
+            velocityData = velocityBuffers.at(weightsPtr).getData().data();
         }
         
         for (size_t j = 0; j < size; ++j) {
@@ -126,10 +122,10 @@ private:
     }
 
     // No buffer yet, or one left behind by a tensor of another shape at the same address
-    static bool isStale(const std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers,
+    static bool isStale(const std::unordered_map<uintptr_t, Tensor<T>>& buffers,
                         uintptr_t key, const Tensor<T>& weight) {
         auto it = buffers.find(key);
-        return it == buffers.end() || it->second->getShape() != weight.getShape();
+        return it == buffers.end() || it->second.getShape() != weight.getShape();
     }
 
     T learningRate;
@@ -139,10 +135,10 @@ private:
     bool centered;
     T weightDecay;
     
-    // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    // Store state buffers for each tensor (identified by memory address), owned by this optimizer alone
+    std::unordered_map<uintptr_t, Tensor<T>> squaredGrads;
+    std::unordered_map<uintptr_t, Tensor<T>> meanGrads;      // For centered RMSProp
+    std::unordered_map<uintptr_t, Tensor<T>> velocityBuffers; // For momentum
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index a13749d..f035b09 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -60,11 +60,11 @@ private:
         
         // Check if momentum buffer exists, create if it doesn't
         auto existing = momentumBuffers.find(weightsPtr);
-        if (existing == momentumBuffers.end() || existing->second->getShape() != weight.getShape()) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        if (existing == momentumBuffers.end() || existing->second.getShape() != weight.getShape()) {
+            momentumBuffers.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
         }
         
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
+        auto& momentumBuffer = momentumBuffers.at(weightsPtr);
         
         T* momentumData = momentumBuffer.getData().data();
         
@@ -100,8 +100,8 @@ private:
     T weightDecay;
     bool nesterov;
     
-    // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    // Store momentum buffers for each tensor (identified by memory address), owned by this optimizer alone
+    std::unordered_map<uintptr_t, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0

