// A small OpenMP runtime on plain pthreads: visible to ThreadSanitizer, hands out the iterations of dynamic loops in
// random order with random delays (both allowed by the OpenMP specification), and logs who executed what.
#include <pthread.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <time.h>
#include <vector>
#include <map>
#include <string>
typedef unsigned long long ull;
namespace {
struct Loop { bool init = false; ull next = 0, end = 0, incr = 1, chunk = 1; bool neg = false; std::vector<ull> order; size_t pos = 0; int left = 0; };
struct Team { int n; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; std::map<long, Loop> loops; pthread_barrier_t bar; std::map<long, bool> singles; };
thread_local Team *team = nullptr;
thread_local int tid = 0;
thread_local long nloop = 0, nsingle = 0;
thread_local uint64_t rs = 0;
thread_local Loop *cur = nullptr;
int defthreads = 0;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named[64], logm = PTHREAD_MUTEX_INITIALIZER;
struct Init { Init() { for (auto &x : named) pthread_mutex_init(&x, nullptr); } } init_;
long env(const char *k, long d) { const char *s = getenv(k); return s ? atol(s) : d; }
uint64_t rnd() {
  if (!rs) { static long seed = env("MG_SEED", 1); rs = 0x9e3779b97f4a7c15ull * (uint64_t)(seed * 64 + tid + 1) | 1; }
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs;
}
void jitter() {
  static const long us = env("MG_DELAY", 0);
  static long calls = 0;      // relaxed, so that no synchronization is added
  if (!us || __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED) >= 25000) return;
  switch (rnd() % 4) { case 0: return; case 1: sched_yield(); return; default: usleep(rnd() % us); }
}
uint64_t hash = 1469598103934665603ull; long events = 0, regions = 0, maxconc = 0, conc = 0;
void log(ull it) {
  pthread_mutex_lock(&logm);
  hash = (hash ^ (it * 64 + tid)) * 1099511628211ull; events++;
  pthread_mutex_unlock(&logm);
}
struct Fin { ~Fin() { if (const char *f = getenv("MG_LOG")) if (FILE *o = fopen(f, "a")) { fprintf(o, "%016llx %ld %ld %ld\n", (ull)hash, events, regions, maxconc); fclose(o); } } } fin;
int maxthreads() { return defthreads > 0 ? defthreads : (int)env("OMP_NUM_THREADS", 1); }
struct Arg { void (*fn)(void *); void *data; Team *t; int id; uint64_t rs; };
void *worker(void *p) { Arg *a = (Arg *)p; team = a->t; tid = a->id; nloop = nsingle = 0; rs = a->rs; jitter(); a->fn(a->data); return nullptr; }
bool loop_start(ull start, ull end, ull incr, ull chunk, bool shuffle, ull *is, ull *ie);
bool loop_next(ull *is, ull *ie) {
  jitter();
  Loop *l = cur;
  bool ok = false;
  pthread_mutex_lock(&team->m);
  if (l->pos < l->order.size()) {
    ull c = l->order[l->pos++];
    *is = l->next + c * l->chunk * l->incr;
    ull e = *is + l->chunk * l->incr;
    const bool neg = (long long)l->incr < 0;
    if (neg ? (long long)e < (long long)l->end : e > l->end) e = l->end;
    *ie = e; ok = true;
  }
  pthread_mutex_unlock(&team->m);
  if (ok) { log(*is); jitter(); }
  return ok;
}
Team &solo() { static thread_local Team *t = nullptr; if (!t) { t = new Team; t->n = 1; } return *t; }
bool loop_start(ull start, ull end, ull incr, ull chunk, bool shuffle, ull *is, ull *ie) {
  if (!team) { team = &solo(); tid = 0; }
  const long id = nloop++;
  pthread_mutex_lock(&team->m);
  Loop &l = team->loops[id];
  if (!l.init) {
    l.init = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk ? chunk : 1;
    const bool neg = (long long)incr < 0;
    ull n = neg ? (start > end ? ((start - end) + (-incr) - 1) / (-incr) : 0) : (end > start ? (end - start + incr - 1) / incr : 0);
    ull c = (n + l.chunk - 1) / l.chunk;
    for (ull i = 0; i < c; i++) l.order.push_back(i);
    if (shuffle && env("MG_SHUFFLE", 1)) for (size_t i = l.order.size(); i > 1; i--) std::swap(l.order[i - 1], l.order[rnd() % i]);
  }
  cur = &l;
  pthread_mutex_unlock(&team->m);
  return loop_next(is, ie);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
  int n = nt ? (int)nt : maxthreads();
  Team *old = team; int oldt = tid; long ol = nloop, os = nsingle; Loop *oc = cur;
  if ((old && old->n > 1) || regions > 20000) n = 1;
  Team *t = new Team; t->n = n;
  pthread_barrier_init(&t->bar, nullptr, n);
  std::vector<pthread_t> th(n); std::vector<Arg> a(n);
  pthread_mutex_lock(&logm); regions++; if (n > maxconc) maxconc = n; pthread_mutex_unlock(&logm);
  for (int i = 1; i < n; i++) { a[i] = {fn, data, t, i, rnd() * 2 + 1}; pthread_create(&th[i], nullptr, worker, &a[i]); }
  team = t; tid = 0; nloop = nsingle = 0;
  jitter(); fn(data);
  for (int i = 1; i < n; i++) pthread_join(th[i], nullptr);
  team = old; tid = oldt; nloop = ol; nsingle = os; cur = oc;
  pthread_barrier_destroy(&t->bar);
  delete t;
}
void GOMP_barrier() { if (team && team->n > 1) pthread_barrier_wait(&team->bar); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
void GOMP_critical_start() { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); jitter(); }
void GOMP_critical_name_start(void **p) { jitter(); pthread_mutex_lock(&named[((uintptr_t)p >> 3) % 64]); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&named[((uintptr_t)p >> 3) % 64]); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() {
  if (!team || team->n == 1) return true;
  const long id = nsingle++;
  pthread_mutex_lock(&team->m); bool r = !team->singles[id]; team->singles[id] = true; pthread_mutex_unlock(&team->m);
  return r;
}
#define LOOPS(N, SH) \
  bool GOMP_loop_##N##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, SH, (ull *)is, (ull *)ie); } \
  bool GOMP_loop_##N##_next(long *is, long *ie) { return loop_next((ull *)is, (ull *)ie); } \
  bool GOMP_loop_ull_##N##_start(bool, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return loop_start(s, e, i, c, SH, is, ie); } \
  bool GOMP_loop_ull_##N##_next(ull *is, ull *ie) { return loop_next(is, ie); }
LOOPS(dynamic, 0) LOOPS(nonmonotonic_dynamic, 1) LOOPS(guided, 0) LOOPS(nonmonotonic_guided, 1) LOOPS(static, 0)
#define RLOOPS(N, SH) \
  bool GOMP_loop_##N##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, SH, (ull *)is, (ull *)ie); } \
  bool GOMP_loop_##N##_next(long *is, long *ie) { return loop_next((ull *)is, (ull *)ie); } \
  bool GOMP_loop_ull_##N##_start(bool, ull s, ull e, ull i, ull *is, ull *ie) { return loop_start(s, e, i, 1, SH, is, ie); } \
  bool GOMP_loop_ull_##N##_next(ull *is, ull *ie) { return loop_next(is, ie); }
RLOOPS(runtime, 0) RLOOPS(maybe_nonmonotonic_runtime, 1) RLOOPS(nonmonotonic_runtime, 1)
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return maxthreads(); }
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_get_thread_limit() { return 1 << 20; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return team ? 1 : 0; }
void omp_set_num_threads(int n) { defthreads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_places() { return 0; }
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_get_cancellation() { return 0; }
}
