/* Just enough of libgomp, built on pthreads, for ThreadSanitizer to see every
 * fork, join, barrier and critical section of an OpenMP parallel region.
 * (The real libgomp synchronises through futexes the sanitizer cannot see.) */
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdatomic.h>

#define MAXT 64
static __thread int tid = 0, nth = 1;
static __thread pthread_barrier_t *bar = 0;
typedef struct team { pthread_mutex_t m; long next, end, incr, chunk; int inited, arrived; } team_t;
static __thread team_t *team = 0;
typedef struct { void (*fn)(void *); void *d; int i, n; pthread_barrier_t *b; team_t *t; } A;

static _Atomic long regions = 0, threads_started = 0;
static _Atomic int widest = 0;
long shim_regions(void) { return regions; }
long shim_threads(void) { return threads_started; }
int shim_widest(void) { return widest; }

static void *run(void *p) {
    A *a = p;
    tid = a->i; nth = a->n; bar = a->b; team = a->t;
    a->fn(a->d);
    return 0;
}
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return nth; }
int omp_get_max_threads(void) { return 8; }
int omp_in_parallel(void) { return nth > 1; }
void GOMP_barrier(void) { if (bar) pthread_barrier_wait(bar); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

/* dynamic / guided / runtime loops: one shared counter under a mutex */
static bool take(long *s, long *e) {
    team_t *t = team;
    pthread_mutex_lock(&t->m);
    bool ok = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (ok) {
        *s = t->next;
        t->next += t->chunk * t->incr;
        if (t->incr > 0 ? t->next > t->end : t->next < t->end) t->next = t->end;
        *e = t->next;
    }
    pthread_mutex_unlock(&t->m);
    return ok;
}
static bool start(long a, long b, long i, long c, long *s, long *e) {
    team_t *t = team;
    pthread_mutex_lock(&t->m);
    if (!t->inited) { t->inited = 1; t->next = a; t->end = b; t->incr = i; t->chunk = c > 0 ? c : 1; }
    pthread_mutex_unlock(&t->m);
    return take(s, e);
}
bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); }
bool GOMP_loop_guided_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); }
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); }
bool GOMP_loop_dynamic_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_guided_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return take(s, e); }
static void loop_reset(void) {
    team_t *t = team;
    if (!t) return;
    pthread_mutex_lock(&t->m);
    if (++t->arrived == nth) { t->arrived = 0; t->inited = 0; }
    pthread_mutex_unlock(&t->m);
}
void GOMP_loop_end(void) { GOMP_barrier(); loop_reset(); GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { loop_reset(); }

void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned flags) {
    (void)flags;
    if (!n) n = 8;
    if (n > MAXT) n = MAXT;
    regions++;
    threads_started += n;
    if ((int)n > widest) widest = (int)n;
    pthread_t t[MAXT];
    A a[MAXT];
    pthread_barrier_t b;
    team_t tm = {.m = PTHREAD_MUTEX_INITIALIZER};
    pthread_barrier_init(&b, 0, n);
    for (unsigned i = 1; i < n; i++) {
        a[i] = (A){fn, d, (int)i, (int)n, &b, &tm};
        pthread_create(&t[i], 0, run, &a[i]);
    }
    int ot = tid, on = nth;
    pthread_barrier_t *ob = bar;
    team_t *otm = team;
    a[0] = (A){fn, d, 0, (int)n, &b, &tm};
    run(&a[0]);
    tid = ot; nth = on; bar = ob; team = otm;
    for (unsigned i = 1; i < n; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&b);
}
static void combined(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f);
typedef struct { void (*fn)(void *); void *d; long a, b, i, c; } L;
static void run_loop(void *p) {
    L *l = p;
    long s, e;
    (void)s; (void)e;
    team_t *t = team;
    pthread_mutex_lock(&t->m);
    if (!t->inited) { t->inited = 1; t->next = l->a; t->end = l->b; t->incr = l->i; t->chunk = l->c > 0 ? l->c : 1; }
    pthread_mutex_unlock(&t->m);
    l->fn(l->d);
}
static void combined(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) {
    L l = {fn, d, a, b, i, c};
    GOMP_parallel(run_loop, &l, n, f);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { combined(fn, d, n, a, b, i, c, f); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { combined(fn, d, n, a, b, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { combined(fn, d, n, a, b, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { combined(fn, d, n, a, b, i, c, f); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { combined(fn, d, n, a, b, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { combined(fn, d, n, a, b, i, 1, f); }
