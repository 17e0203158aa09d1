/* A controlled OpenMP runtime for model checking the compiled library.
 *
 * The library sources are compiled with -fopenmp -fsanitize=thread; this file supplies
 * both the OpenMP entry points (threads become coroutines on one OS thread) and the
 * memory access callbacks. Every run of a parallel region is a deterministic function
 * of the choice sequence handed in by the explorer. Scheduling points: work-sharing
 * calls, barriers, critical sections / atomics and accesses to bytes that were found
 * to be shared between threads with at least one write ("conflict" bytes).
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 16
#define STACK (256 * 1024)
#define MAXPTS 65536

typedef struct { uintptr_t a; uint32_t n; uint8_t w, t; } acc_t;

static int in_region, nthr, cur;
static ucontext_t main_ctx, ctx[MAXT];
static char *stacks[MAXT];
static int done[MAXT], blocked[MAXT];      /* blocked: 0 no, 1 barrier, 2 lock */
static int wsidx[MAXT];
static void (*g_fn)(void *); static void *g_data;

static acc_t *acc; static size_t nacc, cacc;
static uintptr_t *conf; static size_t nconf;   /* sorted conflict byte addresses */

/* explorer interface */
static const int *choices; static int nchoices;
static int pts, pt_cur[MAXPTS], pt_mask[MAXPTS], pt_cho[MAXPTS];
static int diverged, deadlock, lock_owner = -1;
static int order[MAXT];

void qm_setup(const int *c, int n, const uintptr_t *cf, size_t ncf, const int *ord) {
  choices = c; nchoices = n; pts = 0; diverged = 0; deadlock = 0; nacc = 0;
  conf = (uintptr_t *) cf; nconf = ncf; lock_owner = -1;
  for (int i = 0; i < MAXT; ++i) order[i] = ord ? ord[i] : i;
}
int qm_points(void) { return pts; }
int qm_point(int i, int *c, int *m, int *ch) { *c = pt_cur[i]; *m = pt_mask[i]; *ch = pt_cho[i]; return 0; }
int qm_deadlock(void) { return deadlock; }
int qm_diverged(void) { return diverged; }
size_t qm_accesses(void) { return nacc; }
int qm_nthreads(void) { return nthr; }

static void rec(void *p, size_t n, int w);

static int in_conf(uintptr_t a, size_t n) {
  size_t lo = 0, hi = nconf;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (conf[m] < a) lo = m + 1; else hi = m; }
  return lo < nconf && conf[lo] < a + n;
}

static int enabled_mask(void) {
  int m = 0;
  for (int i = 0; i < nthr; ++i) if (!done[i] && !blocked[i]) m |= 1 << i;
  return m;
}

static int pick(int running) {
  int m = enabled_mask(), ch = -1;
  if (!m) return -1;
  if ((m & (m - 1)) == 0) { for (int i = 0; i < nthr; ++i) if (m >> i & 1) return i; }
  if (pts < nchoices) {
    ch = choices[pts];
    if (ch < 0 || !(m >> ch & 1)) { diverged = 1; ch = -1; }
  }
  if (ch < 0) {
    if (running >= 0 && (m >> running & 1)) ch = running;
    else for (int k = 0; k < MAXT; ++k) if (order[k] < nthr && (m >> order[k] & 1)) { ch = order[k]; break; }
  }
  if (pts < MAXPTS) { pt_cur[pts] = (running >= 0 && (m >> running & 1)) ? running : -1; pt_mask[pts] = m; pt_cho[pts] = ch; pts++; }
  return ch;
}

static void yield_point(void) {
  if (!in_region || nthr < 2) return;
  int me = cur, nx = pick(me);
  if (nx < 0) { deadlock = 1; swapcontext(&ctx[me], &main_ctx); return; }
  if (nx != me) { cur = nx; swapcontext(&ctx[me], &ctx[nx]); cur = me; }
}

static void fiber(void) {
  int me = cur;
  g_fn(g_data);
  done[me] = 1;
  /* a barrier may now be complete for the others only if everyone left arrived */
  int nx = pick(-1);
  if (nx < 0) { swapcontext(&ctx[me], &main_ctx); }
  cur = nx; setcontext(&ctx[nx]);
}

static struct { long next, end, incr, chunk; int kind; int arrived; } ws[64];
static int nbar;
int qm_preset;

static void region(void (*fn)(void *), void *data, unsigned n) {
  if (n == 0) n = 4;
  if (n > MAXT) n = MAXT;
  if (in_region) { fn(data); return; }
  nthr = (int) n; g_fn = fn; g_data = data; in_region = 1; nbar = 0;
  if (!qm_preset) memset(ws, 0, sizeof ws);
  for (int i = 0; i < nthr; ++i) {
    if (!stacks[i]) stacks[i] = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    done[i] = 0; blocked[i] = 0; wsidx[i] = 0;
    getcontext(&ctx[i]);
    ctx[i].uc_stack.ss_sp = stacks[i]; ctx[i].uc_stack.ss_size = STACK; ctx[i].uc_link = &main_ctx;
    makecontext(&ctx[i], fiber, 0);
  }
  int first = pick(-1);
  cur = first;
  swapcontext(&main_ctx, &ctx[first]);
  for (int i = 0; i < nthr; ++i) if (!done[i]) deadlock = 1;
  in_region = 0; cur = 0;
}

/* --- OpenMP entry points ------------------------------------------------------- */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned f) { (void) f; region(fn, data, n); }
int omp_get_num_threads(void) { return in_region ? nthr : 1; }
int omp_get_thread_num(void) { return in_region ? cur : 0; }
int omp_get_max_threads(void) { return 4; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return in_region; }
void omp_set_num_threads(int n) { (void) n; }
void omp_set_dynamic(int n) { (void) n; }
double omp_get_wtime(void) { return 0; }

static void release_barrier(void) {
  for (int i = 0; i < nthr; ++i) if (blocked[i] == 1) blocked[i] = 0;
  nbar = 0;
}
void GOMP_barrier(void) {
  if (!in_region) return;
  if (++nbar == nthr) { release_barrier(); yield_point(); return; }
  blocked[cur] = 1;
  yield_point();
}
static void lock(void) {
  if (!in_region) return;
  yield_point();
  while (lock_owner >= 0 && lock_owner != cur) { blocked[cur] = 2; yield_point(); }
  lock_owner = cur;
}
static void unlock(void) {
  if (!in_region) return;
  lock_owner = -1;
  for (int i = 0; i < nthr; ++i) if (blocked[i] == 2) blocked[i] = 0;
  yield_point();
}
void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { (void) p; lock(); }
void GOMP_critical_name_end(void **p) { (void) p; unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }
int GOMP_single_start(void) { if (!in_region) return 1; int k = wsidx[cur]++ & 63; yield_point(); if (ws[k].arrived++ == 0) return 1; return 0; }

static int ws_next(long *s, long *e) {
  int k = (wsidx[cur] - 1) & 63;
  yield_point();
  if (ws[k].incr > 0 ? ws[k].next >= ws[k].end : ws[k].next <= ws[k].end) return 0;
  long left = (ws[k].end - ws[k].next + ws[k].incr - (ws[k].incr > 0 ? 1 : -1)) / ws[k].incr;
  long c = ws[k].chunk;
  if (ws[k].kind == 2) { c = left / nthr; if (c < ws[k].chunk) c = ws[k].chunk; }
  if (c < 1) c = 1;
  if (c > left) c = left;
  *s = ws[k].next; *e = ws[k].next + c * ws[k].incr; ws[k].next = *e;
  return 1;
}
static void ws_init(int k, long s, long e, long i, long c, int kind) {
  ws[k].next = s; ws[k].end = e; ws[k].incr = i; ws[k].chunk = c < 1 ? 1 : c; ws[k].kind = kind; ws[k].arrived = 1;
}
static int ws_start(long s, long e, long i, long c, int kind, long *a, long *b) {
  int k = wsidx[cur]++ & 63;
  if (!ws[k].arrived) ws_init(k, s, e, i, c, kind);
  return ws_next(a, b);
}
static void ws_parallel(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, int kind) {
  memset(ws, 0, sizeof ws);
  /* every thread of the team works on workshare 0 */
  ws_init(0, s, e, i, c, kind);
  for (int t = 0; t < MAXT; ++t) wsidx[t] = 0;
  qm_preset = 1;
  region(fn, d, n);
  qm_preset = 0;
}
#define LOOPNEXT(name) int name(long *a, long *b) { if (qm_preset && wsidx[cur] == 0) wsidx[cur] = 1; return ws_next(a, b); }
LOOPNEXT(GOMP_loop_static_next) LOOPNEXT(GOMP_loop_dynamic_next) LOOPNEXT(GOMP_loop_guided_next)
LOOPNEXT(GOMP_loop_runtime_next) LOOPNEXT(GOMP_loop_nonmonotonic_dynamic_next)
LOOPNEXT(GOMP_loop_nonmonotonic_guided_next) LOOPNEXT(GOMP_loop_nonmonotonic_runtime_next)
LOOPNEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
#define LOOPSTART(name, kind) int name(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, kind, a, b); }
LOOPSTART(GOMP_loop_static_start, 0) LOOPSTART(GOMP_loop_dynamic_start, 1) LOOPSTART(GOMP_loop_guided_start, 2)
LOOPSTART(GOMP_loop_nonmonotonic_dynamic_start, 1) LOOPSTART(GOMP_loop_nonmonotonic_guided_start, 2)
#define PARLOOP(name, kind) void name(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { (void) fl; ws_parallel(f, d, n, s, e, i, c, kind); }
#define LOOPSTARTR(name) int name(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, 1, a, b); }
LOOPSTARTR(GOMP_loop_runtime_start) LOOPSTARTR(GOMP_loop_nonmonotonic_runtime_start) LOOPSTARTR(GOMP_loop_maybe_nonmonotonic_runtime_start)
PARLOOP(GOMP_parallel_loop_static, 0) PARLOOP(GOMP_parallel_loop_dynamic, 1) PARLOOP(GOMP_parallel_loop_guided, 2)
PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 1) PARLOOP(GOMP_parallel_loop_nonmonotonic_guided, 2)
#define PARLOOPR(name) void name(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { (void) fl; ws_parallel(f, d, n, s, e, i, 1, 1); }
PARLOOPR(GOMP_parallel_loop_runtime) PARLOOPR(GOMP_parallel_loop_nonmonotonic_runtime) PARLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }

/* --- memory access callbacks ---------------------------------------------------- */
static void rec(void *p, size_t n, int w) {
  if (!in_region) return;
  uintptr_t a = (uintptr_t) p, sb = (uintptr_t) stacks[cur];
  if (a >= sb && a < sb + STACK) return;
  if (nacc == cacc) { cacc = cacc ? cacc * 2 : 4096; acc = realloc(acc, cacc * sizeof *acc); }
  acc[nacc++] = (acc_t) { a, (uint32_t) n, (uint8_t) w, (uint8_t) cur };
  if (nconf && in_conf(a, n)) yield_point();
}

/* conflict bytes of the last run: shared between threads with >= 1 write */
typedef struct { uintptr_t a; uint16_t r, w; } byte_t;
static int cmpb(const void *x, const void *y) {
  const byte_t *p = x, *q = y; return p->a < q->a ? -1 : p->a > q->a;
}
size_t qm_conflicts(uintptr_t *out, size_t cap) {
  size_t nb = 0, k = 0;
  for (size_t i = 0; i < nacc; ++i) nb += acc[i].n;
  if (!nb) return 0;
  byte_t *b = malloc(nb * sizeof *b);
  for (size_t i = 0; i < nacc; ++i) for (uint32_t j = 0; j < acc[i].n; ++j)
    b[k++] = (byte_t) { acc[i].a + j, acc[i].w ? 0 : 1 << acc[i].t, acc[i].w ? 1 << acc[i].t : 0 };
  qsort(b, nb, sizeof *b, cmpb);
  size_t n = 0;
  for (size_t i = 0; i < nb;) {
    size_t j = i; unsigned r = 0, w = 0;
    while (j < nb && b[j].a == b[i].a) { r |= b[j].r; w |= b[j].w; ++j; }
    unsigned all = r | w;
    if (w && (all & (all - 1))) { if (n < cap) out[n] = b[i].a; n++; }
    i = j;
  }
  free(b);
  return n;
}

#define RW(n) void __tsan_read##n(void *p) { rec(p, n, 0); } void __tsan_write##n(void *p) { rec(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { rec(p, n, 0); } void __tsan_unaligned_write##n(void *p) { rec(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { rec(p, n, 0); } void __tsan_volatile_write##n(void *p) { rec(p, n, 1); } \
  void __tsan_read_write##n(void *p) { rec(p, n, 0); rec(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { rec(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { rec(p, n, 1); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; }
/* 4- and 8-byte atomics emitted for "omp atomic": one indivisible step each */
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int m) { (void) m; rec((void *) p, sizeof(T), 0); return *p; } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); *p = v; } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int m) { (void) m; rec((void *) p, sizeof(T), 1); T o = *p; *p = o & v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int m, int f) { (void) m; (void) f; rec((void *) p, sizeof(T), 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int m, int f) { (void) m; (void) f; rec((void *) p, sizeof(T), 1); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memset(void *p, int c, size_t n) { rec(p, n, 1); return __real_memset(p, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { rec((void *) s, n, 0); rec(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { rec((void *) s, n, 0); rec(d, n, 1); return __real_memmove(d, s, n); }
