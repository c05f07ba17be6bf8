// Threads for the replay of data races (built with ThreadSanitizer): vf_parallel and the entry points g++ -fopenmp uses.
#include "vf.h"
#include <pthread.h>
#include <stdlib.h>
#include <vector>
static thread_local int t_num = 0, t_size = 1;
static int g_threads = 2;
struct Bar {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int n = 0, round = 0;
  void wait(int size)
  {
    pthread_mutex_lock(&m);
    int r = round;
    if (++n == size) { n = 0; ++round; pthread_cond_broadcast(&c); }
    else while (r == round) pthread_cond_wait(&c, &m);
    pthread_mutex_unlock(&m);
  }
};
static Bar g_bar;
struct Job { void (*fn)(void *, int); void *arg; int i, n; };
static void *start(void *p)
{
  Job *j = (Job *)p;
  t_num = j->i;
  t_size = j->n;
  j->fn(j->arg, j->i);
  return 0;
}
struct Loop { long next, end, incr, chunk; };
static Loop g_loop[64];
static pthread_mutex_t g_lm = PTHREAD_MUTEX_INITIALIZER, g_crit = PTHREAD_MUTEX_INITIALIZER;
static thread_local int t_loop = -1;
static int g_started[64];
static bool take(long *a, long *b)
{
  Loop &l = g_loop[t_loop & 63];
  pthread_mutex_lock(&g_lm);
  bool ok = l.incr > 0 ? l.next < l.end : l.next > l.end;
  if (ok) {
    *a = l.next;
    *b = l.next + l.chunk * l.incr;
    if (l.incr > 0 ? *b > l.end : *b < l.end) *b = l.end;
    l.next = *b;
  }
  pthread_mutex_unlock(&g_lm);
  return ok;
}
static bool begin(long s, long e, long incr, long chunk, long *a, long *b)
{
  ++t_loop;
  pthread_mutex_lock(&g_lm);
  if (!g_started[t_loop & 63]) { g_started[t_loop & 63] = 1; g_loop[t_loop & 63] = Loop{s, e, incr, chunk < 1 ? 1 : chunk}; }
  pthread_mutex_unlock(&g_lm);
  return take(a, b);
}
extern "C" {
void vf_parallel(int n, void (*fn)(void *, int), void *arg)
{
  if (t_size > 1) { fn(arg, 0); return; }
  std::vector<pthread_t> t(n);
  std::vector<Job> j(n);
  for (int i = 0; i < 64; ++i) g_started[i] = 0;
  for (int i = 0; i < n; ++i) {
    j[i] = Job{fn, arg, i, n};
    pthread_create(&t[i], 0, start, &j[i]);
  }
  for (int i = 0; i < n; ++i) pthread_join(t[i], 0);
}
void vf_barrier(void) { if (t_size > 1) g_bar.wait(t_size); }
int vf_thread(void) { return t_num; }
struct Call { void (*fn)(void *); void *arg; };
static void one(void *p, int) { Call *c = (Call *)p; c->fn(c->arg); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned, unsigned)
{
  Call c{fn, data};
  int n = vf_cfg("threads");
  vf_parallel(n > 1 ? n : 2, one, &c);
}
void GOMP_barrier(void) { vf_barrier(); }
int omp_get_num_threads(void) { return t_size; }
int omp_get_thread_num(void) { return t_num; }
int omp_get_max_threads(void) { return g_threads; }
void omp_set_num_threads(int) {}
void GOMP_critical_start(void) { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_crit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_crit); }
bool GOMP_single_start(void) { return t_num == 0; }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return begin(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return begin(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return begin(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return begin(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return take(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return take(a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return take(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return take(a, b); }
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return begin((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return begin((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); }
bool GOMP_loop_ull_guided_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return begin((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return begin((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); }
bool GOMP_loop_ull_dynamic_next(ull *a, ull *b) { return take((long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *a, ull *b) { return take((long *)a, (long *)b); }
bool GOMP_loop_ull_guided_next(ull *a, ull *b) { return take((long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull *a, ull *b) { return take((long *)a, (long *)b); }
void GOMP_loop_end(void) { vf_barrier(); }
void GOMP_loop_end_nowait(void) {}
}
