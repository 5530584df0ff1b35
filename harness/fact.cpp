// Counts the numerical work of a monitored program: Cholesky factorisations (one per set of hyperparameters tried in a training), their sizes and
// threads, and the correlation sums of predictions. Written at exit to the file named by RV_FACT.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <atomic>
#include <unistd.h>
extern "C" int omp_get_thread_num(void) __attribute__((weak));
namespace {
std::atomic<long> bySize[512], calls[4]; std::atomic<int> maxThread{0}, maxSolver{0}; thread_local int depth = 0; pid_t owner = getpid();
void seen(std::atomic<int>& m) { int t = omp_get_thread_num ? omp_get_thread_num() + 1 : 1, o = m.load(std::memory_order_relaxed); while (t > o && !m.compare_exchange_weak(o, t)) { } }
void fact(int n) { bySize[n < 0 ? 0 : n > 511 ? 511 : n].fetch_add(1, std::memory_order_relaxed); seen(maxThread); }
struct Report { ~Report() { const char* f = getenv("RV_FACT"); if (!f || getpid() != owner) return; FILE* o = fopen(f, "w"); if (!o) return; fprintf(o, "threads %d\nsolvers %d\nsolves %ld\n", maxThread.load(), maxSolver.load(), calls[0].load()); for (int i = 0; i < 512; i++) if (bySize[i]) fprintf(o, "size %d %ld\n", i, bySize[i].load()); fclose(o); } } report;
}
extern "C" int LAPACKE_dpotrf(int l, char u, int n, double* a, int lda) { typedef int (*F)(int, char, int, double*, int); static F f = (F)dlsym(RTLD_NEXT, "LAPACKE_dpotrf"); depth++; int r = f(l, u, n, a, lda); depth--; fact(n); return r; }
extern "C" void dpotrf_(const char* u, const int* n, double* a, const int* lda, int* info) { typedef void (*F)(const char*, const int*, double*, const int*, int*); static F f = (F)dlsym(RTLD_NEXT, "dpotrf_"); f(u, n, a, lda, info); if (!depth) fact(*n); }
extern "C" void cblas_dtrsv(int o, int u, int t, int d, int n, const double* a, int lda, double* x, int inc) { typedef void (*F)(int, int, int, int, int, const double*, int, double*, int); static F f = (F)dlsym(RTLD_NEXT, "cblas_dtrsv"); calls[0].fetch_add(1, std::memory_order_relaxed); seen(maxSolver); f(o, u, t, d, n, a, lda, x, inc); }
