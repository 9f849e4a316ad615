/* Controlled scheduler for the OpenMP regions of the C extension.
 *
 * The extension is compiled with -fsanitize=thread (every memory access calls
 * __tsan_*) but linked against this file instead of libtsan and libgomp:
 *  - parallel regions run on real pthreads of which exactly one runs at a time;
 *  - every access inside a region is recorded per thread (4-byte granules);
 *  - accesses to watched granules (those on which two threads conflict), and
 *    every blocking/synchronisation operation, are scheduling points where the
 *    explorer's choice sequence decides which thread runs next;
 *  - malloc inside a region is a per-thread bump arena, never reused, poisoned
 *    and fenced by canaries. */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define MAXT 8
#define HBITS 21
#define HSIZE (1u << HBITS)
#define ARENA ((size_t)96 << 20)

void *__real_memset(void *, int, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

typedef struct { uint64_t g; uint32_t gen; uint16_t r, w; } Ent;
typedef struct { int32_t tid, chosen, running_enabled; uint32_t enabled; uint64_t addr; int32_t write; } Point;

static Ent *table;
static uint32_t gen = 1;
static uint64_t *watch; static uint32_t watch_mask; static int nwatch;
static uint64_t *conf; static int nconf, cap_conf;
static int *prefix, nprefix;
static Point *pts; static int npts, cap_pts, truncated;
static int diverged, canary_bad, table_full;
static uint64_t naccess, nregions;
static int req_threads = 1;
static int team_n = 1, active = 0;
static __thread int my_tid = 0;
static __thread int in_rt = 0;
static int cur;
static sem_t sems[MAXT];
static int finished[MAXT], blocked[MAXT];
static int bar_count;
static void *blk_on[MAXT];
static char *arena[MAXT]; static size_t arena_off[MAXT];

static void die(const char *m) { fprintf(stderr, "csched: %s\n", m); fflush(stderr); _exit(97); }

/* ---------------- explorer interface ---------------- */
void cs_reset(uint64_t *w, int nw, int *pre, int npre, int maxpts) {
    int i;
    if (!table) table = mmap(0, HSIZE * sizeof(Ent), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    for (i = 0; i < MAXT; i++) {
        if (!arena[i]) arena[i] = mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        arena_off[i] = 0;
    }
    if (maxpts > cap_pts) { __real_free(pts); pts = __real_malloc(sizeof(Point) * maxpts); cap_pts = maxpts; }
    /* open-addressing set of watched granules */
    uint32_t sz = 16; while (sz < 4u * (uint32_t)(nw + 1)) sz <<= 1;
    __real_free(watch); watch = __real_calloc(sz, 8); watch_mask = sz - 1; nwatch = nw;
    for (i = 0; i < nw; i++) {
        uint32_t h = (uint32_t)((w[i] * 0x9E3779B97F4A7C15ull) >> 32) & watch_mask;
        while (watch[h] && watch[h] != w[i]) h = (h + 1) & watch_mask;
        watch[h] = w[i];
    }
    prefix = pre; nprefix = npre;
    npts = truncated = diverged = canary_bad = table_full = 0; nconf = 0; naccess = nregions = 0;
}
int cs_npts(void) { return npts; }
Point *cs_pts(void) { return pts; }
int cs_flags(void) { return truncated | diverged << 1 | canary_bad << 2 | table_full << 3; }
int cs_nconf(void) { return nconf; }
uint64_t *cs_conf(void) { return conf; }
uint64_t cs_naccess(void) { return naccess; }
uint64_t cs_nregions(void) { return nregions; }
int cs_threads(void) { return req_threads; }

/* ---------------- scheduling ---------------- */
static uint32_t enabled_mask(void) {
    uint32_t m = 0; int i;
    for (i = 0; i < team_n; i++) if (!finished[i] && !blocked[i]) m |= 1u << i;
    return m;
}
/* decide who runs next; self = calling thread or -1 */
static int decide(int self, uint64_t addr, int wr) {
    uint32_t en = enabled_mask(); int order[MAXT], n = 0, i, c = 0;
    if (!en) die("deadlock: no enabled thread");
    int selfen = self >= 0 && (en >> self & 1);
    if (selfen) order[n++] = self;
    for (i = 0; i < team_n; i++) if ((en >> i & 1) && !(selfen && i == self)) order[n++] = i;
    if (n == 1) return order[0];
    if (npts < nprefix) {
        c = prefix[npts];
        if (c < 0 || c >= n) { diverged = 1; c = 0; }
    }
    if (npts < cap_pts) {
        Point *p = &pts[npts++];
        p->tid = self; p->chosen = c; p->running_enabled = selfen; p->enabled = en; p->addr = addr; p->write = wr;
    } else truncated = 1;
    return order[c];
}
static void switch_to(int self, int next) {
    if (next == self) return;
    cur = next;
    sem_post(&sems[next]);
    while (sem_wait(&sems[self])) ;
}
static void point(uint64_t addr, int wr) {
    switch_to(my_tid, decide(my_tid, addr, wr));
}

static inline int watched(uint64_t g) {
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 32) & watch_mask;
    while (watch[h]) { if (watch[h] == g) return 1; h = (h + 1) & watch_mask; }
    return 0;
}
static void note(uint64_t g, int wr) {
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) & (HSIZE - 1), n = 0;
    Ent *e;
    for (;;) {
        e = &table[h];
        if (e->gen != gen) { e->gen = gen; e->g = g; e->r = e->w = 0; break; }
        if (e->g == g) break;
        h = (h + 1) & (HSIZE - 1);
        if (++n > 4096) { table_full = 1; return; }
    }
    uint16_t b = 1u << my_tid, before_all = e->r | e->w, before_w = e->w;
    if (wr) e->w |= b; else e->r |= b;
    int was = before_w && (before_all & (before_all - 1));
    uint16_t all = e->r | e->w;
    int is = e->w && (all & (all - 1));
    if (is && !was) {
        if (nconf == cap_conf) { cap_conf = cap_conf ? 2 * cap_conf : 1024; conf = __real_realloc(conf, 8 * (size_t)cap_conf); }
        conf[nconf++] = g;
    }
}
static void acc(uint64_t a, size_t n, int wr) {
    if (!active || in_rt || !n) return;
    in_rt = 1;
    uint64_t g, g0 = a >> 2, g1 = (a + n - 1) >> 2;
    naccess++;
    if (nwatch) {
        for (g = g0; g <= g1; g++) if (watched(g)) { point(a, wr); break; }
    }
    for (g = g0; g <= g1; g++) note(g, wr);
    in_rt = 0;
}

/* ---------------- instrumentation callbacks ---------------- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *a) { acc((uint64_t)a, n, 0); } \
  void __tsan_write##n(void *a) { acc((uint64_t)a, n, 1); } \
  void __tsan_unaligned_read##n(void *a) { acc((uint64_t)a, n, 0); } \
  void __tsan_unaligned_write##n(void *a) { acc((uint64_t)a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { acc((uint64_t)a, n, 0); } \
  void __tsan_volatile_write##n(void *a) { acc((uint64_t)a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { acc((uint64_t)a, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void *a) { acc((uint64_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc((uint64_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { acc((uint64_t)a, n, 1); }
void __tsan_vptr_update(void **a, void *b) { acc((uint64_t)a, 8, 1); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int m) { acc((uint64_t)a, bits/8, 0); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int m) { acc((uint64_t)a, bits/8, 1); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int fm) { acc((uint64_t)a, bits/8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int fm) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, fm); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int fm) { T o = c; __tsan_atomic##bits##_compare_exchange_strong(a, &o, v, m, fm); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}

/* ---------------- libc wrappers ---------------- */
void *__wrap_memset(void *d, int c, size_t n) { acc((uint64_t)d, n, 1); return __real_memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc((uint64_t)s, n, 0); acc((uint64_t)d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc((uint64_t)s, n, 0); acc((uint64_t)d, n, 1); return __real_memmove(d, s, n); }
#define FENCE 64
static int in_arena(void *p) {
    int i; for (i = 0; i < MAXT; i++) if (arena[i] && (char*)p >= arena[i] && (char*)p < arena[i] + ARENA) return 1;
    return 0;
}
void *__wrap_malloc(size_t n) {
    if (!active) return __real_malloc(n);
    int t = my_tid; size_t r = (n + 15) & ~(size_t)15, need = 16 + FENCE + r + FENCE;
    if (arena_off[t] + need > ARENA) return __real_malloc(n);
    char *b = arena[t] + arena_off[t]; arena_off[t] += need;
    ((uint64_t*)b)[0] = n; ((uint64_t*)b)[1] = need;
    __real_memset(b + 16, 0xFB, FENCE);
    __real_memset(b + 16 + FENCE, 0xFF, r);           /* NaN poison */
    __real_memset(b + 16 + FENCE + n, 0xFB, FENCE + r - n);
    return b + 16 + FENCE;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!active) return __real_calloc(a, b);
    void *p = __wrap_malloc(a * b); __real_memset(p, 0, a * b); return p;
}
void __wrap_free(void *p) { if (p && !in_arena(p)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    size_t old = ((uint64_t*)((char*)p - 16 - FENCE))[0]; void *q = __wrap_malloc(n);
    __real_memcpy(q, p, old < n ? old : n); return q;
}
static void check_canaries(void) {
    int t; size_t k;
    for (t = 0; t < MAXT; t++) {
        size_t o = 0;
        while (o < arena_off[t]) {
            char *b = arena[t] + o; size_t n = ((uint64_t*)b)[0], need = ((uint64_t*)b)[1];
            if (need < 16 + 2*FENCE || o + need > arena_off[t]) { canary_bad = 1; return; }
            for (k = 0; k < FENCE; k++) if ((unsigned char)b[16 + k] != 0xFB || (unsigned char)b[16 + FENCE + n + k] != 0xFB) canary_bad = 1;
            o += need;
        }
    }
}

/* ---------------- zheevd: opaque, so modelled as non-atomic ---------------- */
typedef void (*Zheevd)(char*, char*, int*, double*, int*, double*, double*, int*, double*, int*, int*, int*, int*);
static Zheevd real_z;
static int range_watched(void *a, size_t n) {
    uint64_t g; if (!nwatch) return 0;
    for (g = (uint64_t)a >> 2; g <= ((uint64_t)a + n - 1) >> 2; g++) if (watched(g)) return 1;
    return 0;
}
static void shim(char *jobz, char *uplo, int *n, double *a, int *lda, double *w, double *work, int *lwork,
                 double *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
    if (!active || *liwork == -1 || *lwork == -1 || *lrwork == -1) { real_z(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info); return; }
    int N = *n, LDA = *lda, LW = *lwork, LRW = *lrwork, LIW = *liwork, hot = 0, k;
    size_t sa = (size_t)16 * N * LDA, sw = (size_t)8 * N;
    void *rng[5] = {a, w, work, rwork, iwork};
    size_t len[5] = {sa, sw, (size_t)16 * LW, (size_t)8 * LRW, (size_t)4 * LIW};
    acc((uint64_t)a, sa, 0);
    for (k = 0; k < 5; k++) if (range_watched(rng[k], len[k])) hot = 1;
    double *ca = __real_malloc(sa), *cw = __real_malloc(sw), *cwork = __real_malloc(len[2]), *crw = __real_malloc(len[3]);
    int *ciw = __real_malloc(len[4]);
    __real_memcpy(ca, a, sa);
    real_z(jobz, uplo, n, ca, lda, cw, cwork, lwork, crw, lrwork, ciw, liwork, info);
    for (k = 0; k < 5; k++) acc((uint64_t)rng[k], len[k], 1);
    if (hot) {
        /* in progress: everything it owns holds intermediate values */
        char *snap[5];
        for (k = 0; k < 5; k++) {
            __real_memset(rng[k], 0xE0 + my_tid, len[k]);
            snap[k] = __real_malloc(len[k]); __real_memcpy(snap[k], rng[k], len[k]);
        }
        in_rt = 1; point((uint64_t)a, 1); in_rt = 0;
        for (k = 0; k < 5; k++) {
            if (memcmp(snap[k], rng[k], len[k])) { __real_memset(ca, 0xFF, sa); __real_memset(cw, 0xFF, sw); }
            __real_free(snap[k]);
        }
    }
    __real_memcpy(a, ca, sa); __real_memcpy(w, cw, sw);
    __real_memset(work, 0xFF, len[2]); __real_memset(rwork, 0xFF, len[3]); 
    __real_free(ca); __real_free(cw); __real_free(cwork); __real_free(crw); __real_free(ciw);
}
void *__real_get_zheevd(void) __attribute__((weak));
void *__wrap_get_zheevd(void) {
    void *p = __real_get_zheevd();
    if (!p) return p;
    real_z = (Zheevd)p;
    return (void*)shim;
}

/* ---------------- OpenMP runtime ---------------- */
typedef struct { void (*fn)(void*); void *data; int tid; } Start;
#define MAXWS 64
static struct { int init; long next, end, incr, chunk; int single, done; } ws[MAXWS];
static int ws_idx[MAXT];
static struct { int has; long s, e, i, c; } pre;

static void thread_end(int t) {
    int i, all = 1;
    finished[t] = 1;
    for (i = 0; i < team_n; i++) if (!finished[i]) all = 0;
    if (all) { if (t != 0) { cur = 0; sem_post(&sems[0]); } return; }
    int nxt = decide(t, 0, 0);
    cur = nxt; sem_post(&sems[nxt]);
    if (t == 0) {   /* master waits for the team */
        for (;;) {
            while (sem_wait(&sems[0])) ;
            all = 1; for (i = 0; i < team_n; i++) if (!finished[i]) all = 0;
            if (all) return;
        }
    }
}
static void *tmain(void *p) {
    Start *s = p;
    my_tid = s->tid;
    while (sem_wait(&sems[s->tid])) ;
    s->fn(s->data);
    thread_end(s->tid);
    return 0;
}
void omp_set_num_threads(int n) { req_threads = n > 0 ? n : 1; }
int omp_get_num_threads(void) { return active ? team_n : 1; }
int omp_get_max_threads(void) { return req_threads; }
int omp_get_thread_num(void) { return active ? my_tid : 0; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return active && team_n > 1; }
void omp_set_dynamic(int n) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_nested(int n) {}
double omp_get_wtime(void) { return 0.; }

void GOMP_parallel(void (*fn)(void*), void *data, unsigned nt, unsigned flags) {
    int i; Start st[MAXT]; pthread_t th[MAXT]; pthread_attr_t at;
    if (active) { /* nested region: a team of one */ fn(data); return; }
    int has_pre = pre.has; long ps = pre.s, pe = pre.e, pi = pre.i, pc = pre.c; pre.has = 0;
    int n = nt ? (int)nt : req_threads;
    if (n > MAXT) n = MAXT;
    if (!table) cs_reset(0, 0, 0, 0, 1024);
    team_n = n; my_tid = 0; bar_count = 0; nregions++;
    gen++;
    __real_memset(ws, 0, sizeof ws);
    if (has_pre) { ws[0].init = 1; ws[0].next = ps; ws[0].end = pe; ws[0].incr = pi; ws[0].chunk = pc > 0 ? pc : 1; }
    for (i = 0; i < n; i++) { finished[i] = blocked[i] = 0; blk_on[i] = 0; ws_idx[i] = has_pre; sem_init(&sems[i], 0, 0); }
    pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
    for (i = 1; i < n; i++) {
        st[i].fn = fn; st[i].data = data; st[i].tid = i;
        if (pthread_create(&th[i], &at, tmain, &st[i])) die("pthread_create");
    }
    active = 1; cur = 0;
    int first = decide(-1, 0, 0);
    if (first != 0) { cur = first; sem_post(&sems[first]); while (sem_wait(&sems[0])) ; }
    fn(data);
    thread_end(0);
    for (i = 1; i < n; i++) pthread_join(th[i], 0);
    active = 0; team_n = 1;
    check_canaries();
}
static void block_on(void *what) {
    blocked[my_tid] = 1; blk_on[my_tid] = what;
    switch_to(my_tid, decide(my_tid, 0, 0));
}
static void wake(void *what) {
    int i; for (i = 0; i < team_n; i++) if (blocked[i] && blk_on[i] == what) blocked[i] = 0;
}
static char bar_key;
void GOMP_barrier(void) {
    if (!active || team_n == 1) return;
    in_rt = 1;
    int live = team_n;
    if (++bar_count == live) { bar_count = 0; wake(&bar_key); point(0, 0); }
    else block_on(&bar_key);
    in_rt = 0;
}
typedef struct { int held, owner; } Lk;
static Lk crit, atom;
static struct { void **key; Lk l; } named[32]; static int nnamed;
static void lk_acquire(Lk *l) {
    if (!active) return;
    in_rt = 1;
    if (team_n > 1) point(0, 1);
    while (l->held) block_on(l);
    l->held = 1; in_rt = 0;
}
static void lk_release(Lk *l) { if (!active) return; l->held = 0; wake(l); }
void GOMP_critical_start(void) { lk_acquire(&crit); }
void GOMP_critical_end(void) { lk_release(&crit); }
void GOMP_atomic_start(void) { lk_acquire(&atom); }
void GOMP_atomic_end(void) { lk_release(&atom); }
static Lk *nl(void **k) { int i; for (i = 0; i < nnamed; i++) if (named[i].key == k) return &named[i].l; named[nnamed].key = k; return &named[nnamed++].l; }
void GOMP_critical_name_start(void **k) { lk_acquire(nl(k)); }
void GOMP_critical_name_end(void **k) { lk_release(nl(k)); }
void omp_init_lock(void *l) { *(void**)l = __real_calloc(1, sizeof(Lk)); }
void omp_destroy_lock(void *l) { __real_free(*(void**)l); }
void omp_set_lock(void *l) { lk_acquire(*(Lk**)l); }
void omp_unset_lock(void *l) { lk_release(*(Lk**)l); }
bool GOMP_single_start(void) {
    if (!active) return true;
    int k = ws_idx[my_tid]++ % MAXWS;
    in_rt = 1; if (team_n > 1) point(0, 1); in_rt = 0;
    return ws[k].single++ == 0;
}
static bool grab(int k, long *s, long *e) {
    if (active && team_n > 1) { in_rt = 1; point(0, 1); in_rt = 0; }
    if (ws[k].incr > 0 ? ws[k].next >= ws[k].end : ws[k].next <= ws[k].end) return false;
    *s = ws[k].next; *e = *s + ws[k].chunk * ws[k].incr;
    if (ws[k].incr > 0 ? *e > ws[k].end : *e < ws[k].end) *e = ws[k].end;
    ws[k].next = *e;
    return true;
}
static bool loop_start(long s, long e, long inc, long ch, long *is, long *ie) {
    int k = ws_idx[my_tid]++ % MAXWS;
    if (!ws[k].init) { ws[k].init = 1; ws[k].next = s; ws[k].end = e; ws[k].incr = inc; ws[k].chunk = ch > 0 ? ch : 1; }
    return grab(k, is, ie);
}
static bool loop_next(long *is, long *ie) { return grab((ws_idx[my_tid] - 1) % MAXWS, is, ie); }
static void pre_loop(long s, long e, long i, long c) { pre.has = 1; pre.s = s; pre.e = e; pre.i = i; pre.c = c; }
#define LOOP(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void *d, unsigned nt, long s, long e, long i, long c, unsigned f) { \
      pre_loop(s, e, i, c); GOMP_parallel(fn, d, nt, f); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
