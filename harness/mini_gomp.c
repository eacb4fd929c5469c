// A small OpenMP runtime over plain threads, so that ThreadSanitizer sees every fork and join of a parallel region.
// It may hand out fewer threads than asked for, as the standard allows, and starts them with random delays.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <sched.h>
#include <unistd.h>
#include <stdint.h>
typedef struct Team { int n; pthread_barrier_t bar; pthread_mutex_t mu; long next, end, incr, chunk; int singles; } Team;
static __thread Team *team; static __thread int tid; static __thread int icv; static __thread int myload;
static __thread int mysingles;
static int defaultThreads(void) { static int n; int v = __atomic_load_n(&n, __ATOMIC_RELAXED); if (!v) { const char *e = getenv("OMP_NUM_THREADS"); v = e ? atoi(e) : 4; __atomic_store_n(&n, v, __ATOMIC_RELAXED); } return v; }
static uint64_t seed = 88172645463325252ull;
static uint64_t rnd(void) { uint64_t z = __atomic_add_fetch(&seed, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return icv ? icv : defaultThreads(); }
void omp_set_num_threads(int n) { if (n > 0) icv = n; }
int omp_in_parallel(void) { return team && team->n > 1; }
int omp_get_num_procs(void) { return defaultThreads(); }
int omp_get_level(void) { return team != 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return 0; }
typedef struct { void (*fn)(void *); void *data; Team *t; int id, icv, delay; } Arg;
static void *go(void *p) { Arg *a = p; if (a->delay == 1) sched_yield(); else if (a->delay == 2) usleep(30); team = a->t; tid = a->id; icv = a->icv; mysingles = 0; a->fn(a->data); return 0; }
static void par(void (*fn)(void *), void *data, unsigned nt, Team *t) {
    Team *outer = team; int outerTid = tid, outerS = mysingles;
    int n = outer ? 1 : nt ? (int)nt : omp_get_max_threads();
    if (n > 1 && rnd() % 8 == 0) n = 1 + rnd() % n;
    Team local; if (!t) { t = &local; t->next = t->end = 0; t->incr = t->chunk = 1; }
    t->n = n; t->singles = 0; pthread_barrier_init(&t->bar, 0, n); pthread_mutex_init(&t->mu, 0);
    pthread_t *h = malloc(sizeof *h * n); Arg *a = malloc(sizeof *a * n);
    for (int i = 1; i < n; i++) { a[i] = (Arg){fn, data, t, i, omp_get_max_threads(), (int)(rnd() % 4)}; pthread_create(&h[i], 0, go, &a[i]); }
    team = t; tid = 0; mysingles = 0; fn(data);
    for (int i = 1; i < n; i++) pthread_join(h[i], 0);
    team = outer; tid = outerTid; mysingles = outerS;
    pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->mu); free(h); free(a);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; par(fn, data, n, 0); }
void GOMP_barrier(void) { if (team && team->n > 1) pthread_barrier_wait(&team->bar); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) { if (!team || team->n == 1) return true; pthread_mutex_lock(&team->mu); bool f = team->singles == mysingles; if (f) team->singles++; mysingles++; pthread_mutex_unlock(&team->mu); return f; }
static bool grab(long *a, long *b) {
    Team *t = team; pthread_mutex_lock(&t->mu); bool ok = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (ok) { *a = t->next; long e = t->next + t->chunk * t->incr; if (t->incr > 0 ? e > t->end : e < t->end) e = t->end; *b = e; t->next = e; }
    pthread_mutex_unlock(&t->mu); return ok;
}
static void parLoop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) { Team t = {0}; t.next = s; t.end = e; t.incr = i; t.chunk = c > 0 ? c : 1; par(fn, d, n, &t); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void)f; parLoop(fn, d, n, s, e, i, 1); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return grab(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return grab(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
typedef unsigned long long ull;
static bool ullgrab(ull *a, ull *b) { long x, y; if (!grab(&x, &y)) return false; *a = x; *b = y; return true; }
static bool ullstart(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) {   // worksharing loop inside a region: first to arrive sets it up
    Team *t = team; if (!t) { *a = s; *b = e; return up ? s < e : s > e; }
    pthread_mutex_lock(&t->mu); if (t->singles == mysingles) { t->singles++; t->next = s; t->end = e; t->incr = i; t->chunk = c ? c : 1; } mysingles++; pthread_mutex_unlock(&t->mu);
    return ullgrab(a, b);
}
bool GOMP_loop_ull_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ullstart(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ullstart(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_guided_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ullstart(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ullstart(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_dynamic_next(ull *a, ull *b) { return team && ullgrab(a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *a, ull *b) { return team && ullgrab(a, b); }
bool GOMP_loop_ull_guided_next(ull *a, ull *b) { return team && ullgrab(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull *a, ull *b) { return team && ullgrab(a, b); }
