// @bounds x
// @assume x
// @outside x
// @flags -fopenmp -I@VERIF@/harness/fakeomp
// @opts .* --omp-threads 70
#include "repo.hpp"
#include <omp.h>
#include <mutex>
ENTRY(qr_tls) { float x = sym_f32("x", 0, 1); std::vector<float> r(50); 
#pragma omp parallel for
  for (int i = 0; i < 50; ++i) { static thread_local std::vector<float> buf; buf.assign(3, x); buf[1] += i; r[i] = buf[1] + buf[2]; } for (int i = 0; i < 50; ++i) check_eq(r[i], 2 * x + i, "tls"); }
ENTRY(qr_static) { float x = sym_f32("x", 0, 1); std::vector<float> r(50); 
#pragma omp parallel for
  for (int i = 0; i < 50; ++i) { static const std::vector<float> t{1, 2, 3}; r[i] = t[i % 3] * x; } for (int i = 0; i < 50; ++i) check_eq(r[i], (i % 3 + 1) * x, "static"); }
static void inner(std::vector<float>& v, int i, float x) {
#pragma omp parallel for
  for (int j = 0; j < 4; ++j) v[i * 4 + j] = x + j; }
ENTRY(qr_nested) { float x = sym_f32("x", 0, 1); std::vector<float> r(40); 
#pragma omp parallel for
  for (int i = 0; i < 10; ++i) inner(r, i, x); for (int i = 0; i < 40; ++i) check_eq(r[i], x + i % 4, "nested"); }
ENTRY(qr_barrier) { float x = sym_f32("x", 0, 1); std::vector<float> r(10), q(10); 
#pragma omp parallel
  {
#pragma omp for
  for (int i = 0; i < 10; ++i) r[i] = x + i;
#pragma omp for
  for (int i = 0; i < 10; ++i) q[i] = r[9 - i];
  } for (int i = 0; i < 10; ++i) check_eq(q[i], x + 9 - i, "barrier"); }
ENTRY(qr_nobarrier) { float x = sym_f32("x", 0, 1); std::vector<float> r(10), q(10); 
#pragma omp parallel
  {
#pragma omp for nowait
  for (int i = 0; i < 10; ++i) r[i] = x + i;
#pragma omp for
  for (int i = 0; i < 10; ++i) q[i] = r[9 - i];
  } for (int i = 0; i < 10; ++i) check_eq(q[i], x + 9 - i, "nobarrier RACE"); }
ENTRY(qr_perthread) { float x = sym_f32("x", 0, 1); int t = sym_pick("t", 1, 3); omp_set_num_threads(t); std::vector<float> part(omp_get_max_threads()); float s = 0; 
#pragma omp parallel
  { int me = omp_get_thread_num();
#pragma omp for
  for (int i = 0; i < 7; ++i) part[me] += x; 
#pragma omp single
  for (float v : part) s += v;
  } check_eq(s, 7 * x, "per thread"); }
ENTRY(qr_firstprivate_carry) { float x = sym_f32("x", 0, 1); int t = sym_pick("t", 1, 3); omp_set_num_threads(t); std::vector<float> r(7); float acc = 0;
#pragma omp parallel for firstprivate(acc)
  for (int i = 0; i < 7; ++i) { acc += x; r[i] = acc; } check_eq(r[6], 7 * x, "carry VIOLATION for t>1"); }
ENTRY(qr_mutex) { float x = sym_f32("x", 0, 1); std::mutex m; float s = 0;
#pragma omp parallel for
  for (int i = 0; i < 7; ++i) { std::lock_guard<std::mutex> g(m); s += x; } check_eq(s, 7 * x, "mutex"); }
ENTRY(qr_dyn) { float x = sym_f32("x", 0, 1); std::vector<float> r(30); 
#pragma omp parallel for schedule(dynamic, 4)
  for (int i = 0; i < 30; ++i) r[i] = x; 
#pragma omp parallel for schedule(static, 2)
  for (int i = 0; i < 30; ++i) r[i] += x; check_eq(r[29], 2 * x, "dyn"); }
