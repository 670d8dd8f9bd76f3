// Stand-in for libgomp, so that OpenMP regions run under control of the checks.
// Two ways to run a team:
//   fibers  (default): the team's threads run one at a time on the calling thread,
//           in an order drawn from a seed; a barrier switches between them. An
//           outcome that depends on the order of the threads becomes visible.
//   threads (VF_OMP_THREADS=1): real threads between a fork and a join barrier
//           that ThreadSanitizer understands; loop chunks and "single" are handed
//           out with relaxed atomics, so the shim adds no ordering between members.
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>

extern "C" {
int vf_omp_threads = 1;        // what omp_get_max_threads() returns
int vf_omp_real    = -1;       // 1: real threads
uint64_t vf_omp_seed = 1;      // order of the fibers / delays
long vf_omp_regions = 0, vf_omp_team_regions = 0, vf_omp_max_team = 0;
}
static const int MAXT = 16;
struct Loop { long next, end, incr, chunk; int kind; };  // kind 0 dynamic 1 guided
struct Team {
    void (*fn)(void *); void *data;
    int n;
    long single;           // tickets handed out
    Loop loop;
    long loops;            // loops opened
};
static __thread int   t_id = 0;
static __thread Team *t_team = nullptr;
static __thread long  t_single = 0, t_loops = 0;
static uint64_t rnd() { vf_omp_seed ^= vf_omp_seed << 13; vf_omp_seed ^= vf_omp_seed >> 7; vf_omp_seed ^= vf_omp_seed << 17; return vf_omp_seed; }
static bool real() {
    if (vf_omp_real < 0) { const char *e = getenv("VF_OMP_THREADS"); vf_omp_real = e && *e == '1'; }
    return vf_omp_real == 1;
}
// ---------------------------------------------------------------- fibers
struct Fiber { ucontext_t c; char *stack; bool done; int id; long single, loops; };
static ucontext_t        f_main;
static Fiber *           f_all[MAXT];
static int               f_count = 0;
static Fiber *           f_cur = nullptr;
static void fiber_main() {
    Fiber *f = f_cur;
    t_team->fn(t_team->data);
    f->done = true;
    swapcontext(&f->c, &f_main);
}
static void fiber_yield() {
    Fiber *f = f_cur;
    f->single = t_single; f->loops = t_loops;
    swapcontext(&f->c, &f_main);
    t_id = f->id; t_single = f->single; t_loops = f->loops;
}
static void run_fibers(Team *t) {
    int n = t->n;
    while (f_count < n) { auto *f = (Fiber *)calloc(1, sizeof(Fiber)); f->stack = (char *)malloc(1 << 18); f_all[f_count++] = f; }
    int order[MAXT];
    for (int i = 0; i < n; i++) {
        order[i] = i;
        Fiber *f = f_all[i];
        getcontext(&f->c);
        f->c.uc_stack.ss_sp = f->stack; f->c.uc_stack.ss_size = 1 << 18; f->c.uc_link = nullptr;
        makecontext(&f->c, fiber_main, 0);
        f->done = false; f->id = i; f->single = f->loops = 0;
    }
    int left = n;
    while (left) {  // one round per barrier
        for (int i = n - 1; i > 0; i--) { int j = rnd() % (i + 1); int q = order[i]; order[i] = order[j]; order[j] = q; }
        for (int i = 0; i < n; i++) {
            Fiber *f = f_all[order[i]];
            if (f->done) continue;
            f_cur = f; t_id = f->id; t_single = f->single; t_loops = f->loops; t_team = t;
            swapcontext(&f_main, &f->c);
            if (f->done) left--;
        }
    }
    f_cur = nullptr;
}
// ---------------------------------------------------------------- threads
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  cv = PTHREAD_COND_INITIALIZER;
static Team *          job[MAXT];
static int             workers = 0;
static pthread_barrier_t bstart[MAXT + 1], bend[MAXT + 1], bmid[MAXT + 1];
static bool            binit = false;
static void member(Team *t, int id) {
    t_id = id; t_team = t; t_single = t_loops = 0;
    pthread_barrier_wait(&bstart[t->n]);
    uint64_t z = ((uint64_t)(uintptr_t)t ^ (id * 0x9e3779b97f4a7c15ull)) + vf_omp_seed;
    z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 29;
    if (z % 4 == 0) sched_yield();
    if (z % 61 == 1) usleep(z % 50);
    t->fn(t->data);
    pthread_barrier_wait(&bend[t->n]);
    t_id = 0; t_team = nullptr;
}
static void *worker(void *p) {
    long id = (long)p;
    for (;;) {
        pthread_mutex_lock(&mu);
        while (!job[id]) pthread_cond_wait(&cv, &mu);
        Team *t = job[id];
        job[id] = nullptr;
        pthread_mutex_unlock(&mu);
        member(t, id);
    }
    return nullptr;
}
static void run_threads(Team *t) {
    if (!binit) {
        for (int i = 1; i <= MAXT; i++) { pthread_barrier_init(&bstart[i], 0, i); pthread_barrier_init(&bend[i], 0, i); pthread_barrier_init(&bmid[i], 0, i); }
        binit = true;
    }
    rnd();
    pthread_mutex_lock(&mu);
    while (workers < t->n - 1) { workers++; pthread_t h; pthread_create(&h, 0, worker, (void *)(long)workers); pthread_detach(h); }
    for (int i = 1; i < t->n; i++) job[i] = t;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
    member(t, 0);
}
static void run(Team *t, unsigned want) {
    t->n = want ? (int)want : vf_omp_threads;
    if (t->n > MAXT) t->n = MAXT;
    if (t->n < 1 || t_team) t->n = 1;
    t->single = 0; t->loops = 0;
    vf_omp_regions++;
    if (t->n > 1) vf_omp_team_regions++;
    if (t->n > vf_omp_max_team) vf_omp_max_team = t->n;
    if (t->n == 1) {
        Team *st = t_team; int sid = t_id; long ss = t_single, sl = t_loops; Fiber *sf = f_cur;
        t_team = t; t_id = 0; t_single = t_loops = 0; f_cur = nullptr;
        t->fn(t->data);
        t_team = st; t_id = sid; t_single = ss; t_loops = sl; f_cur = sf;
        return;
    }
    if (real()) run_threads(t); else run_fibers(t);
    t_team = nullptr; t_id = 0;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { Team t; memset(&t, 0, sizeof t); t.fn = fn; t.data = data; run(&t, n); }
void GOMP_barrier(void) {
    if (!t_team || t_team->n == 1) return;
    if (real()) pthread_barrier_wait(&bmid[t_team->n]); else fiber_yield();
}
bool GOMP_single_start(void) {
    if (!t_team) return true;
    long k = t_single++;
    long e = k;
    return __atomic_compare_exchange_n(&t_team->single, &e, k + 1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
static bool loop_next(long *a, long *b) {
    Loop &L = t_team->loop;
    for (;;) {
        long s = __atomic_load_n(&L.next, __ATOMIC_RELAXED);
        if (L.incr > 0 ? s >= L.end : s <= L.end) return false;
        long left = (L.end - s + L.incr + (L.incr > 0 ? -1 : 1)) / L.incr;
        long c = L.kind == 1 ? (left + t_team->n - 1) / t_team->n : L.chunk;
        if (c < L.chunk) c = L.chunk;
        if (c < 1) c = 1;
        if (c > left) c = left;
        if (__atomic_compare_exchange_n(&L.next, &s, s + c * L.incr, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { *a = s; *b = s + c * L.incr; return true; }
    }
}
static void par_loop(int kind, void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c) {
    Team t; memset(&t, 0, sizeof t); t.fn = fn; t.data = data;
    t.loop.next = s; t.loop.end = e; t.loop.incr = i; t.loop.chunk = c; t.loop.kind = kind;
    run(&t, n);
}
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(1, fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(1, fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(0, fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(0, fn, d, n, s, e, i, c); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(0, fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(0, fn, d, n, s, e, i, 1); }
bool GOMP_loop_guided_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
// a work-sharing loop inside a region
static bool ws_start(int kind, long s, long e, long i, long c, long *a, long *b) {
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    Team dummy;
    if (!t_team) return false;
    long k = t_loops++;
    if (real()) pthread_mutex_lock(&m);
    if (t_team->loops == k) { t_team->loops = k + 1; t_team->loop = Loop{s, e, i, c, kind}; }
    if (real()) pthread_mutex_unlock(&m);
    return loop_next(a, b);
}
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(1, s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(1, s, e, i, c, a, b); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(0, s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(0, s, e, i, c, a, b); }
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { if (real()) pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { if (real()) pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **) { GOMP_critical_start(); }
void GOMP_critical_name_end(void **) { GOMP_critical_end(); }
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start(void) { if (real()) pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { if (real()) pthread_mutex_unlock(&atom); }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_thread_num(void) { return t_id; }
int omp_get_max_threads(void) { return vf_omp_threads; }
int omp_get_num_procs(void) { return vf_omp_threads; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
void omp_set_num_threads(int n) { vf_omp_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return MAXT; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}
