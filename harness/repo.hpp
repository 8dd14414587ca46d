// All of the repository's headers, in an order in which they compile, plus small helpers over its public API.
#pragma once
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
using namespace smart_dnn;
typedef std::vector<int> Dims;
inline int prodOf(const Dims& d) { int n = 1; for (size_t i = 0; i < d.size(); ++i) n *= d[i]; return n; }
// Very large tensors (over 1200 elements) hold a fixed pattern of dyadic values and are symbolic only at both ends, in the middle and around powers of two.
static const int HUGE_TENSOR = 1200;
// Widens the value ranges of symTensor and divTensor (the qr_magnitudes entries): values far outside [-4, 4].
static double WIDE = 1;
inline bool hugeAt(int i, int n) { return n <= HUGE_TENSOR || i < 2 || i >= n - 2 || i == n / 2 || i == 1024 || i == 4096 || i == 65536; }
template <class T> Tensor<T> symTensor(const Dims& d, const char* name, double lo = -4, double hi = 4) { lo *= WIDE; hi *= WIDE; Tensor<T> t{Shape(d)}; T* p = t.getData().data(); int n = prodOf(d); for (int i = 0; i < n; ++i) p[i] = hugeAt(i, n) ? SymT<T>::mk(name, lo, hi) : (T)(lo + (hi - lo) / 32 * ((unsigned)(i * 37 + i / 256 * 5 + name[0]) % 29u + 1)); return t; }
template <class T> Tensor<T> anyTensor(const Dims& d, const char* name) { Tensor<T> t{Shape(d)}; T* p = t.getData().data(); int n = prodOf(d); for (int i = 0; i < n; ++i) p[i] = SymT<T>::any(name); return t; }
template <class T> const T* raw(const Tensor<T>& t) { return t.getData().data(); }
template <class T> std::vector<T> values(const Tensor<T>& t) { const T* p = raw(t); int n = prodOf(t.getShape().getDimensions()); std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = p[i]; return v; }
inline bool sameDims(const Dims& a, const Dims& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
template <class T> void checkDims(const Tensor<T>& t, const Dims& d, const char* msg) { sym_assert(sameDims(t.getShape().getDimensions(), d), msg); sym_assert(t.getShape().size() == prodOf(d), "the element count is the product of the dimensions"); sym_assert(t.getData().size() == (size_t)prodOf(d), "the storage holds exactly the shape's elements"); }
template <class T> void checkTensor(const Tensor<T>& t, const Dims& d, const std::vector<T>& v, const char* msg) { bool ok = sameDims(t.getShape().getDimensions(), d); sym_assert(ok, "result shape"); if (!ok) return; sym_assert(t.getData().size() == v.size(), "result storage size"); if (t.getData().size() != v.size()) return; const T* p = raw(t); for (size_t i = 0; i < v.size(); ++i) check_eq(p[i], v[i], msg); }
// ---- reference helpers (independent of the repository's index code) ----
inline std::vector<int> unflatten(int f, const Dims& d) { std::vector<int> ix(d.size()); for (int i = (int)d.size() - 1; i >= 0; --i) { ix[i] = f % d[i]; f /= d[i]; } return ix; }
inline int flatten(const std::vector<int>& ix, const Dims& d) { int f = 0; for (size_t i = 0; i < d.size(); ++i) f = f * d[i] + ix[i]; return f; }
inline bool broadcastable(const Dims& a, const Dims& b) { int n = (int)std::min(a.size(), b.size()); for (int k = 1; k <= n; ++k) { int x = a[a.size() - k], y = b[b.size() - k]; if (x != y && x != 1 && y != 1) return false; } return true; }
inline Dims broadcastDims(const Dims& a, const Dims& b) { int n = (int)std::max(a.size(), b.size()); Dims r(n); for (int k = 1; k <= n; ++k) { int x = k <= (int)a.size() ? a[a.size() - k] : 1, y = k <= (int)b.size() ? b[b.size() - k] : 1; r[n - k] = x == 1 ? y : x; } return r; }
// flat index, in a tensor of dims `src`, of the element seen at flat position f of the broadcast dims `dst`
inline int bcIndex(int f, const Dims& dst, const Dims& src) { int r = 0, stride = 1; for (int k = 1; k <= (int)src.size(); ++k) { int e = dst[dst.size() - k], i = f % e; f /= e; int w = src[src.size() - k]; if (w != 1) r += i * stride; stride *= w; } return r; }
template <class T> void checkValues(const Tensor<T>& t, const std::vector<T>& v, const char* msg) { sym_assert(t.getData().size() == v.size(), "storage size"); if (t.getData().size() != v.size()) return; const T* p = raw(t); for (size_t i = 0; i < v.size(); ++i) check_eq(p[i], v[i], msg); }
// values that may be divided by: positive or negative, away from zero (the sign is part of the case split)
template <class T> Tensor<T> divTensor(const Dims& d, const char* name) { Tensor<T> t{Shape(d)}; T* p = t.getData().data(); int n = prodOf(d); for (int i = 0; i < n; ++i) { T v = hugeAt(i, n) ? SymT<T>::mk(name, 0.25, 4 * WIDE) : (T)(1 << ((unsigned)(i + i / 64) % 5u)) / 4; p[i] = (i % 2) ? -v : v; } return t; }
inline Dims pickDims(int r, int lo, int hi) { Dims d(r); for (int i = 0; i < r; ++i) d[i] = sym_pick("dim", lo, hi); return d; }
// A catalogue of shapes: every rank up to 6, extents 1 in every position, odd and even extents, extents around powers of two.
static const Dims CATALOGUE[] = {{1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {12}, {13}, {15}, {16}, {17}, {31}, {32}, {33}, {64}, {65}, {1, 1}, {1, 2}, {1, 5}, {5, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 4}, {1, 13}, {13, 1}, {5, 9}, {9, 5}, {17, 3}, {3, 17}, {8, 8}, {1, 1, 1}, {1, 2, 3}, {2, 1, 3}, {2, 3, 1}, {3, 3, 3}, {3, 2, 4}, {4, 3, 2}, {2, 4, 3}, {2, 5, 3}, {1, 1, 6}, {6, 1, 1}, {1, 6, 1}, {5, 4, 3}, {2, 3, 2, 2}, {2, 2, 3, 2}, {1, 3, 1, 4}, {3, 1, 2, 2}, {2, 2, 1, 1}, {1, 1, 3, 3}, {2, 3, 4, 2}, {2, 1, 2, 1, 3}, {1, 2, 2, 2, 2}, {3, 1, 1, 2, 2}, {1, 2, 2, 1, 2, 2}, {2, 1, 1, 2, 1, 3}};
inline const Dims& pickShape(int maxElements = 65, int minRank = 1, int maxRank = 6) { static std::vector<int> ok; ok.clear(); int n = (int)(sizeof CATALOGUE / sizeof *CATALOGUE); for (int i = 0; i < n; ++i) { int r = (int)CATALOGUE[i].size(); if (prodOf(CATALOGUE[i]) <= maxElements && r >= minRank && r <= maxRank) ok.push_back(i); } return CATALOGUE[ok[sym_pick("shape", 0, (int)ok.size() - 1)]]; }
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/SmartDNN.hpp"
// a recording optimizer: hands a layer's parameters and gradients to the harness
template <class T> struct Probe : Optimizer<T> { std::vector<Tensor<T>*> w; std::vector<Tensor<T>> g; int calls = 0; void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& ws, const std::vector<std::reference_wrapper<Tensor<T>>>& gs, T = T(-1)) override { ++calls; for (auto& x : ws) w.push_back(&x.get()); for (auto& x : gs) g.push_back(x.get()); } };
// IEEE comparison for the fp entries: equal, both NaN, or equal up to a few roundings (so that an equivalent way of computing the same value is accepted)
inline void fpSame(float a, float b, const char* msg) { sym_assert(((a != a) & (b != b)) | (a == b) | (std::fabs(a - b) <= 1e-5f * std::fabs(b)), msg); }
