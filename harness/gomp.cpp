// The OpenMP runtime interface on POSIX threads, which ThreadSanitizer understands, with random delays. Not instrumented logic of the code under test.
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
namespace {
struct Team { unsigned n; pthread_barrier_t bar; pthread_mutex_t m; long next, end, incr, chunk; unsigned loopGen, singleGen, joined; bool loopActive; };
thread_local unsigned tid = 0; thread_local Team* team = nullptr; thread_local uint64_t rs = 0; thread_local unsigned mySingle = 0, myLoop = 0;
int defaultThreads = 4; pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, reg = PTHREAD_MUTEX_INITIALIZER;
uint64_t seq = 0x1234567; long regions = 0, threads = 0, criticals = 0;
uint64_t rnd() { rs += 0x9E3779B97F4A7C15ULL; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
void jitter(unsigned us) { uint64_t h = rnd(); if (h % 4 == 0) { struct timespec t = {0, (long)((h >> 8) % (us * 1000 + 1))}; nanosleep(&t, 0); } else if (h % 4 == 1) sched_yield(); }
struct Start { void (*fn)(void*); void* data; Team* t; unsigned id; uint64_t seed; };
void* entry(void* p) { Start s = *(Start*)p; tid = s.id; team = s.t; rs = s.seed; mySingle = myLoop = 0; jitter(300); s.fn(s.data); return 0; }
void region(void (*fn)(void*), void* data, unsigned n, long st = 0, long en = 0, long inc = 0, long ch = 0, bool loop = false) {
	if (n == 0) n = defaultThreads; if (team) n = 1;
	Team t; t.n = n; pthread_barrier_init(&t.bar, 0, n); pthread_mutex_init(&t.m, 0); t.next = st; t.end = en; t.incr = inc; t.chunk = ch > 0 ? ch : 1; t.loopGen = loop ? 1 : 0; t.singleGen = 0; t.joined = 0; t.loopActive = loop;
	Start s[64]; pthread_t h[64]; if (n > 64) n = t.n = 64;
	pthread_mutex_lock(&reg); regions++; threads += n; uint64_t base = seq += 0x9E37; pthread_mutex_unlock(&reg);
	for (unsigned i = 1; i < n; i++) { s[i] = {fn, data, &t, i, base * 31 + i}; if (pthread_create(&h[i], 0, entry, &s[i])) { fprintf(stderr, "gomp shim: no thread\n"); _exit(3); } }
	Team* oldT = team; unsigned oldId = tid, oldS = mySingle, oldL = myLoop; team = &t; tid = 0; mySingle = 0; myLoop = 0; rs = base * 31; if (n > 1) jitter(100);
	fn(data);
	for (unsigned i = 1; i < n; i++) pthread_join(h[i], 0);
	team = oldT; tid = oldId; mySingle = oldS; myLoop = oldL; pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.m);
}
bool nextChunk(long* a, long* b) { Team* t = team; if (!t) return false; pthread_mutex_lock(&t->m); bool more = t->incr > 0 ? t->next < t->end : t->next > t->end; if (more) { *a = t->next; long e = t->next + t->chunk * t->incr; if (t->incr > 0 ? e > t->end : e < t->end) e = t->end; *b = e; t->next = e; } pthread_mutex_unlock(&t->m); jitter(20); return more; }
bool startLoop(long st, long en, long inc, long ch, long* a, long* b) { Team* t = team; if (!t) { *a = st; *b = en; return inc > 0 ? st < en : st > en; } pthread_mutex_lock(&t->m); if (t->loopGen == myLoop) { t->loopGen++; t->next = st; t->end = en; t->incr = inc; t->chunk = ch > 0 ? ch : 1; } myLoop++; pthread_mutex_unlock(&t->m); return nextChunk(a, b); }
struct Report { ~Report() { } } report;
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n); }
void GOMP_critical_start() { jitter(50); pthread_mutex_lock(&crit); criticals++; }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); jitter(50); }
void GOMP_critical_name_start(void** p) { jitter(50); pthread_mutex_lock(&reg); if (!*p) { pthread_mutex_t* m = (pthread_mutex_t*)malloc(sizeof *m); pthread_mutex_init(m, 0); *p = m; } pthread_mutex_t* m = (pthread_mutex_t*)*p; pthread_mutex_unlock(&reg); pthread_mutex_lock(m); }
void GOMP_critical_name_end(void** p) { pthread_mutex_lock(&reg); pthread_mutex_t* m = (pthread_mutex_t*)*p; pthread_mutex_unlock(&reg); pthread_mutex_unlock(m); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
void GOMP_barrier() { if (team && team->n > 1) { pthread_barrier_wait(&team->bar); jitter(20); } }
bool GOMP_single_start() { Team* t = team; if (!t) return true; pthread_mutex_lock(&t->m); bool mine = t->singleGen == mySingle; if (mine) t->singleGen++; mySingle++; pthread_mutex_unlock(&t->m); return mine; }
#define LOOP(k) \
bool GOMP_loop_##k##_next(long* a, long* b) { return nextChunk(a, b); } \
void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { region(fn, d, n, s, e, i, c, true); } \
bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return startLoop(s, e, i, c, a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define RLOOP(k) \
bool GOMP_loop_##k##_next(long* a, long* b) { return nextChunk(a, b); } \
void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, s, e, i, 1, true); } \
bool GOMP_loop_##k##_start(long s, long e, long i, long* a, long* b) { return startLoop(s, e, i, 1, a, b); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return tid; }
int omp_get_max_threads() { return team ? 1 : defaultThreads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { return team ? 1 : 0; }
void omp_set_num_threads(int n) { if (n > 0) defaultThreads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic() { return 0; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void omp_init_lock(void** l) { pthread_mutex_t* m = (pthread_mutex_t*)malloc(sizeof *m); pthread_mutex_init(m, 0); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*)*l); free(*l); *l = 0; }
void omp_set_lock(void** l) { jitter(20); pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*)*l) == 0; }
// what the shim has seen, for the evidence of the checks
void rv_omp_counts(long* r, long* t, long* c) { *r = regions; *t = threads; *c = criticals; }
void rv_omp_seed(unsigned long s) { seq = s; }
}
