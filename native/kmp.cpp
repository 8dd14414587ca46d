// A small OpenMP runtime (the entry points clang emits) on plain pthreads, so that the counterexamples of C35 can be
// replayed under ThreadSanitizer without an instrumented libomp.  Every region runs on N threads, all iterations of a
// thread one after the other; dynamic schedules are dealt out like static ones.
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <pthread.h>
#include <vector>
typedef void (*Task)(int*, int*, ...);
static int wanted = 0;
static int N() { const char* e = getenv("KMP_N"); return wanted ? wanted : e ? atoi(e) : 24; }
static pthread_barrier_t bar;
static thread_local int me = 0, team = 1; static thread_local bool inPar = false; static thread_local int64_t dlo, dhi, dst; static thread_local bool dany = false;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
struct Job { int id, n, argc; void** a; Task f; };
static void invoke(Job* j) { int g = j->id, b = j->id; void** a = j->a; switch (j->argc) {
    case 0: j->f(&g, &b); break; case 1: j->f(&g, &b, a[0]); break; case 2: j->f(&g, &b, a[0], a[1]); break; case 3: j->f(&g, &b, a[0], a[1], a[2]); break; case 4: j->f(&g, &b, a[0], a[1], a[2], a[3]); break;
    case 5: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4]); break; case 6: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break; case 7: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break; case 10: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    default: j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]); } }
static void* worker(void* p) { Job* j = (Job*)p; me = j->id; team = j->n; inPar = true; invoke(j); return nullptr; }
template <class I> static void split(I lo, I hi, int64_t inc, I* plo, I* phi, int32_t* last, int64_t* stride) { (void)inc; int64_t trip = (int64_t)hi - (int64_t)lo + 1; if (trip < 0) trip = 0; int64_t T = team, s = trip / T, x = trip % T, b = me * s + (me < x ? me : x), c = s + (me < x ? 1 : 0); *plo = (I)((int64_t)lo + b); *phi = (I)((int64_t)lo + b + c - 1); *last = c > 0 && b + c == trip; *stride = trip + 1; }
template <class I> static void dinit(I lo, I hi, int64_t st) { int64_t trip = st > 0 ? (hi >= lo ? ((int64_t)hi - (int64_t)lo) / st + 1 : 0) : (lo >= hi ? ((int64_t)lo - (int64_t)hi) / -st + 1 : 0); int64_t T = team, s = trip / T, x = trip % T, b = me * s + (me < x ? me : x), c = s + (me < x ? 1 : 0); dany = c > 0; dlo = (int64_t)lo + b * st; dhi = (int64_t)lo + (b + c - 1) * st; dst = st; }
extern "C" {
void __kmpc_fork_call(void*, int argc, Task f, ...) { std::vector<void*> a(24, nullptr); va_list v; va_start(v, f); for (int i = 0; i < argc && i < 24; ++i) a[i] = va_arg(v, void*); va_end(v);
  if (inPar) { Job j{0, 1, argc, a.data(), f}; int m = me, t = team; me = 0; team = 1; invoke(&j); me = m; team = t; return; }
  int n = N(); pthread_barrier_init(&bar, nullptr, n); std::vector<Job> js(n); std::vector<pthread_t> ts(n); for (int i = 0; i < n; ++i) { js[i] = Job{i, n, argc, a.data(), f}; pthread_create(&ts[i], nullptr, worker, &js[i]); } for (int i = 0; i < n; ++i) pthread_join(ts[i], nullptr); pthread_barrier_destroy(&bar); }
void __kmpc_barrier(void*, int) { if (team > 1) pthread_barrier_wait(&bar); }
int32_t __kmpc_global_thread_num(void*) { return me; }
void __kmpc_push_num_threads(void*, int, int) {} void __kmpc_serialized_parallel(void*, int) {} void __kmpc_end_serialized_parallel(void*, int) {} void __kmpc_for_static_fini(void*, int) {} void __kmpc_flush(void*) {}
void __kmpc_for_static_init_4(void*, int, int, int32_t* l, int32_t* lo, int32_t* hi, int32_t* pst, int32_t inc, int32_t) { int64_t st; split<int32_t>(*lo, *hi, inc, lo, hi, l, &st); *pst = (int32_t)st; }
void __kmpc_for_static_init_4u(void*, int, int, int32_t* l, uint32_t* lo, uint32_t* hi, int32_t* pst, int32_t inc, int32_t) { int64_t st; split<uint32_t>(*lo, *hi, inc, lo, hi, l, &st); *pst = (int32_t)st; }
void __kmpc_for_static_init_8(void*, int, int, int32_t* l, int64_t* lo, int64_t* hi, int64_t* pst, int64_t inc, int64_t) { int64_t st; split<int64_t>(*lo, *hi, inc, lo, hi, l, &st); *pst = (int64_t)st; }
void __kmpc_for_static_init_8u(void*, int, int, int32_t* l, uint64_t* lo, uint64_t* hi, int64_t* pst, int64_t inc, int64_t) { int64_t st; split<uint64_t>(*lo, *hi, inc, lo, hi, l, &st); *pst = (int64_t)st; }
void __kmpc_dispatch_init_4(void*, int, int, int32_t lo, int32_t hi, int32_t st, int32_t) { dinit(lo, hi, st); } void __kmpc_dispatch_init_4u(void*, int, int, uint32_t lo, uint32_t hi, int32_t st, int32_t) { dinit(lo, hi, st); }
void __kmpc_dispatch_init_8(void*, int, int, int64_t lo, int64_t hi, int64_t st, int64_t) { dinit(lo, hi, st); } void __kmpc_dispatch_init_8u(void*, int, int, uint64_t lo, uint64_t hi, int64_t st, int64_t) { dinit(lo, hi, st); }
#define NEXT(SUF, I) int32_t __kmpc_dispatch_next_##SUF(void*, int, int32_t* l, I* lo, I* hi, I* st) { if (!dany) return 0; dany = false; *l = 1; *lo = (I)dlo; *hi = (I)dhi; *st = (I)dst; return 1; }
NEXT(4, int32_t) NEXT(4u, uint32_t) NEXT(8, int64_t) NEXT(8u, uint64_t)
void __kmpc_critical(void*, int, void*) { pthread_mutex_lock(&crit); } void __kmpc_critical_with_hint(void*, int, void*, uint32_t) { pthread_mutex_lock(&crit); } void __kmpc_end_critical(void*, int, void*) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { pthread_mutex_lock(&crit); return 1; } int32_t __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { pthread_mutex_lock(&crit); return 1; }
void __kmpc_end_reduce_nowait(void*, int, void*) { pthread_mutex_unlock(&crit); } void __kmpc_end_reduce(void*, int, void*) { pthread_mutex_unlock(&crit); }
int32_t __kmpc_master(void*, int) { return me == 0; } int32_t __kmpc_masked(void*, int, int) { return me == 0; } int32_t __kmpc_single(void*, int) { return me == 0; } void __kmpc_end_master(void*, int) {} void __kmpc_end_masked(void*, int) {} void __kmpc_end_single(void*, int) {}
void __kmpc_dispatch_deinit(void*, int) {} void __kmpc_dispatch_fini_4(void*, int) {} void __kmpc_dispatch_fini_8(void*, int) {}
int omp_get_thread_num() { return me; } int omp_get_num_threads() { return team; } int omp_get_max_threads() { return N(); } int omp_get_num_procs() { return N(); } int omp_in_parallel() { return inPar; } void omp_set_num_threads(int n) { wanted = n < 1 ? 1 : n > 64 ? 64 : n; } int omp_get_level() { return inPar; } int omp_get_active_level() { return inPar; } void omp_set_dynamic(int) {} void omp_set_nested(int) {} double omp_get_wtime() { return 0; }
}
