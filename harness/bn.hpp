#pragma once
#include "repo.hpp"
// feature of flat element f, number of elements per feature
inline int featOf(int f, const Dims& d) { return unflatten(f, d)[1]; }
struct Stats { std::vector<float> mean, var; };
inline Stats batchStats(const std::vector<float>& v, const Dims& d) { int F = d[1]; float n = (float)((int)v.size() / F); Stats s; s.mean.assign(F, 0.f); s.var.assign(F, 0.f); for (size_t f = 0; f < v.size(); ++f) s.mean[featOf((int)f, d)] += v[f]; for (auto& m : s.mean) m /= n; for (size_t f = 0; f < v.size(); ++f) { int c = featOf((int)f, d); s.var[c] += (v[f] - s.mean[c]) * (v[f] - s.mean[c]); } for (auto& x : s.var) x /= n; return s; }
// gives the layer arbitrary gamma and beta through the optimizer interface (the only way a user can change them)
struct SetParams : Optimizer<float> { std::vector<float> gamma, beta; std::vector<Tensor<float>> grads; int n = 0; void optimize(const std::vector<std::reference_wrapper<Tensor<float>>>& ws, const std::vector<std::reference_wrapper<Tensor<float>>>& gs, float) override { ++n; grads.clear(); for (auto& g : gs) grads.push_back(g.get()); if (ws.size() != 2) sym_fail("the layer has two parameters"); for (size_t i = 0; i < gamma.size(); ++i) { ws[0].get()[i] = gamma[i]; ws[1].get()[i] = beta[i]; } } };
inline void setParams(BatchNormalizationLayer<float>& L, int F, const Dims& d, SetParams& p) { p.gamma.resize(F); p.beta.resize(F); for (int i = 0; i < F; ++i) { p.gamma[i] = sym_f32("gamma", -2, 2); p.beta[i] = sym_f32("beta", -2, 2); } Tensor<float> z(Shape(d), 0.f); L.forward(z); L.backward(z); L.updateWeights(p); }
