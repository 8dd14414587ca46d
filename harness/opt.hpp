#pragma once
#include "repo.hpp"
typedef std::vector<std::reference_wrapper<Tensor<float>>> Refs;
// reference recurrences, one instance per tensor
struct RefSGD { float mom, damp, wd; bool nest; std::vector<float> v; void step(std::vector<float>& w, const std::vector<float>& g, float lr) { if (v.empty()) v.assign(w.size(), 0.f); for (size_t i = 0; i < w.size(); ++i) { float e = g[i] + wd * w[i]; v[i] = mom * v[i] + (1 - damp) * e; w[i] -= lr * (mom == 0 ? e : nest ? e + mom * v[i] : v[i]); } } };
struct RefRMS { float alpha, eps, mom, wd; bool cen; std::vector<float> s, m, v; void step(std::vector<float>& w, const std::vector<float>& g, float lr) { if (s.empty()) { s.assign(w.size(), 0.f); m = v = s; } for (size_t i = 0; i < w.size(); ++i) { float e = g[i] + wd * w[i]; s[i] = alpha * s[i] + (1 - alpha) * e * e; m[i] = alpha * m[i] + (1 - alpha) * e; float q = cen ? std::max(s[i] - m[i] * m[i], 0.f) : s[i]; float u = e / std::sqrt(q + eps); v[i] = mom * v[i] + u; w[i] -= lr * (mom > 0 ? v[i] : u); } } };
struct RefAdam { float b1, b2, eps, l1, l2, decay; int batch; int t = 0; std::vector<float> m, v; void step(std::vector<float>& w, const std::vector<float>& g, float lr, bool over) { if (m.empty()) { m.assign(w.size(), 0.f); v = m; } ++t; float p1 = 1, p2 = 1; for (int i = 0; i < t; ++i) { p1 *= b1; p2 *= b2; } if (!over) lr = lr / (1 + decay * (float)t); for (size_t i = 0; i < w.size(); ++i) { float e = g[i] / (float)batch; m[i] = b1 * m[i] + (1 - b1) * e; v[i] = b2 * v[i] + (1 - b2) * e * e; float u = lr * (m[i] / (1 - p1)) / (std::sqrt(v[i] / (1 - p2)) + eps); float sgn = l1 == 0 ? 0.f : w[i] > 0 ? 1.f : w[i] < 0 ? -1.f : 0.f; w[i] -= u + lr * l1 * sgn + lr * l2 * w[i]; } } };
// one update with fresh symbolic gradients; the gradients must come back unchanged
template <class O, class R> void stepBoth(O& o, std::vector<Tensor<float>*> ws, std::vector<std::vector<float>>& ref, std::vector<R>& rs, bool over, float lr, double glo = -4, double ghi = 4) {
  std::vector<Tensor<float>> gs; for (auto* w : ws) gs.push_back(symTensor<float>(w->getShape().getDimensions(), "g", glo, ghi)); Refs a, b; std::vector<std::vector<float>> gv; for (size_t i = 0; i < ws.size(); ++i) { a.push_back(*ws[i]); b.push_back(gs[i]); gv.push_back(values(gs[i])); }
  float olr = over ? sym_f32("override", 0.01, 1) : -1.f; if (over) o.optimize(a, b, olr); else o.optimize(a, b);
  for (size_t i = 0; i < ws.size(); ++i) { rs[i](ref[i], gv[i], over ? olr : lr, over); checkTensor(*ws[i], ws[i]->getShape().getDimensions(), ref[i], "updated weight"); checkTensor(gs[i], gs[i].getShape().getDimensions(), gv[i], "gradients are unchanged"); } }
