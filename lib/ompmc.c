/* OpenMP runtime, allocator and access monitor of checks C20 and C21.
 *
 * The C sources of the package are compiled by clang with -fopenmp and
 * -fsanitize=thread and are linked to this file instead of libomp and
 * libtsan.  "Threads" of a parallel region are fibers executed one after
 * another in a chosen order with a chosen distribution of iterations.  All
 * accesses within a region are recorded with the number of the thread; two
 * accesses of different threads to one byte, one of them a write, not
 * separated by a barrier and not both in a critical section, are a race.
 * Without a race all interleavings are equivalent to the one executed.
 *
 * Independently all accesses of monitored calls are checked to be inside of
 * arrays given to the call, live blocks of the heap, the stack, or static
 * data. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

typedef uint64_t u64;
typedef int64_t i64;
#define EXPORT __attribute__((visibility("default")))

/* ---------------------------------------------------------------- state */
enum { SEQ, EACH, EACH_REV, STATIC, MASK, ROBIN, SPLIT };
static int m_kind = SEQ, m_on = 0, m_bounds = 0, m_race = 0;
static i64 m_T = 1, m_param = 0;
static int m_heap = 0, m_stack = 0;
static int m_max_threads = 4;
static int m_level = 1, in_outer; /* level of nested regions which is executed by threads */

static i64 n_regions, n_threads, n_iter, n_access, n_alloc, n_barrier, n_serial, max_iter;

#define NERR 64
static char errs[NERR][256];
static int nerr;
static void *err_pc[NERR][2];

static void add_err(const char *kind, void *pc1, void *pc2, u64 addr) {
    int i;
    char s1[100], s2[100];
    Dl_info d;
    for (i = 0; i < nerr; i++)
        if (err_pc[i][0] == pc1 && err_pc[i][1] == pc2 && !strncmp(errs[i], kind, strlen(kind))) return;
    if (nerr == NERR) return;
    s1[0] = s2[0] = 0;
    if (pc1 && dladdr(pc1, &d)) snprintf(s1, 100, "0x%lx", (u64)pc1 - (u64)d.dli_fbase - 1);
    if (pc2 && dladdr(pc2, &d)) snprintf(s2, 100, "0x%lx", (u64)pc2 - (u64)d.dli_fbase - 1);
    snprintf(errs[nerr], 256, "%s|%s|%s|%s", kind, pc1 && dladdr(pc1, &d) ? d.dli_fname : "", s1, s2);
    err_pc[nerr][0] = pc1;
    err_pc[nerr][1] = pc2;
    nerr++;
}

/* ---------------------------------------------------------------- allowed memory */
typedef struct { u64 a, b; int live; } range;
static range *args_;
static int n_args, c_args;
static range *heap_; /* sorted by a */
static int n_heap, c_heap;
static u64 st_lo, st_hi;
static range last_ok;
static u64 ok_page[64];

EXPORT void mc_region(u64 p, u64 n) {
    if (n_args == c_args) args_ = realloc(args_, sizeof(range) * (c_args = c_args * 2 + 64));
    args_[n_args].a = p;
    args_[n_args].b = p + n;
    n_args++;
}

static int heap_find(u64 p) { /* last block with a <= p */
    int lo = 0, hi = n_heap;
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (heap_[m].a <= p) lo = m + 1; else hi = m;
    }
    return lo - 1;
}

#define RED 64
static void *alloc_(size_t n, int fill) {
    char *q = malloc(n + 2 * RED);
    int i;
    if (!q) return NULL;
    n_alloc++;
    memset(q, 0x5c, n + 2 * RED);
    memset(q + RED, fill, n);
    if (n_heap == c_heap) heap_ = realloc(heap_, sizeof(range) * (c_heap = c_heap * 2 + 256));
    i = heap_find((u64)(q + RED)) + 1;
    memmove(heap_ + i + 1, heap_ + i, sizeof(range) * (n_heap - i));
    heap_[i].a = (u64)(q + RED);
    heap_[i].b = (u64)(q + RED) + n;
    heap_[i].live = 1;
    n_heap++;
    return q + RED;
}
static void purge(void) { /* blocks which were freed */
    int i, k = 0;
    for (i = 0; i < n_heap; i++) {
        if (heap_[i].live) heap_[k++] = heap_[i];
        else free((char *)heap_[i].a - RED);
    }
    n_heap = k;
}
static i64 n_dead;
EXPORT void *mc_malloc(size_t n) { return alloc_(n, m_heap); }
EXPORT void *mc_calloc(size_t n, size_t m) { return alloc_(n * m, 0); }
EXPORT void mc_free(void *p) {
    int i;
    if (!p) return;
    i = heap_find((u64)p);
    if (i < 0 || heap_[i].a != (u64)p || !heap_[i].live) {
        add_err("free", __builtin_return_address(0), 0, (u64)p);
        return;
    }
    heap_[i].live = 0;
    memset(p, m_heap ^ 0x55, heap_[i].b - heap_[i].a);
    if (last_ok.a == heap_[i].a) last_ok.a = last_ok.b = 0;
    if (!m_on && ++n_dead > 1000) { purge(); n_dead = 0; }
}
EXPORT void *mc_realloc(void *p, size_t n) {
    void *q = mc_malloc(n);
    int i;
    if (p && q) {
        i = heap_find((u64)p);
        if (i >= 0 && heap_[i].a == (u64)p) {
            size_t m = heap_[i].b - heap_[i].a;
            memcpy(q, p, m < n ? m : n);
        }
        mc_free(p);
    }
    return q;
}
EXPORT char *mc_strdup(const char *s) {
    char *q = mc_malloc(strlen(s) + 1);
    return strcpy(q, s);
}

/* ---------------------------------------------------------------- fibers */
#define STACK (512 * 1024)
#define POISON (48 * 1024)
typedef struct fiber {
    ucontext_t ctx;
    char *stack;
    int done, tid, started;
    /* loop */
    i64 lb, ub, st, next, cnt;
    i64 cur;
    int ser; /* depth of serialised regions */
    i64 sv[8][6];
} fiber;
static char **pool_;
static int n_pool, c_pool;
static char **all_stacks;
static int n_stacks, c_stacks;

static char *get_stack(void) {
    char *s;
    if (n_pool) s = pool_[--n_pool];
    else {
        s = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (n_stacks == c_stacks) all_stacks = realloc(all_stacks, sizeof(char *) * (c_stacks = c_stacks * 2 + 16));
        all_stacks[n_stacks++] = s;
    }
    memset(s + STACK - POISON, m_stack, POISON);
    return s;
}
static void put_stack(char *s) {
    if (n_pool == c_pool) pool_ = realloc(pool_, sizeof(char *) * (c_pool = c_pool * 2 + 16));
    pool_[n_pool++] = s;
}
static int in_stacks(u64 p) {
    int i;
    for (i = 0; i < n_stacks; i++)
        if (p >= (u64)all_stacks[i] && p < (u64)all_stacks[i] + STACK) return 1;
    return 0;
}

static fiber *cur_f;           /* current fiber in a region */
static ucontext_t main_ctx;
static i64 reg_n;              /* iterations of the region's loop, -1 unknown */
static i64 reg_T;
static int in_crit;

/* ---------------------------------------------------------------- conflicts */
typedef struct { u64 key; uint32_t epoch, crit; int32_t w[8], r[8]; void *wpc, *rpc; } cell;
static cell *tab;
static u64 tab_n, tab_used;
static uint32_t epoch_;

static cell *lookup(u64 k) {
    u64 h, i;
    if (tab_used * 2 >= tab_n) {
        cell *old = tab;
        u64 on = tab_n;
        tab_n = tab_n ? tab_n * 2 : 1 << 14;
        tab = calloc(tab_n, sizeof(cell));
        tab_used = 0;
        for (i = 0; i < on; i++)
            if (old[i].epoch == epoch_) {
                h = (old[i].key * 0x9e3779b97f4a7c15ull) & (tab_n - 1);
                while (tab[h].epoch == epoch_) h = (h + 1) & (tab_n - 1);
                tab[h] = old[i];
                tab_used++;
            }
        free(old);
    }
    h = (k * 0x9e3779b97f4a7c15ull) & (tab_n - 1);
    while (tab[h].epoch == epoch_) {
        if (tab[h].key == k) return tab + h;
        h = (h + 1) & (tab_n - 1);
    }
    tab[h].key = k;
    tab[h].epoch = epoch_;
    tab[h].crit = 1;
    for (i = 0; i < 8; i++) tab[h].w[i] = tab[h].r[i] = -1;
    tab[h].wpc = tab[h].rpc = 0;
    tab_used++;
    return tab + h;
}

static void note(u64 p, u64 n, int wr, void *pc) {
    int t = cur_f->tid;
    while (n) {
        u64 k = p >> 3, o = p & 7, c = 8 - o, i;
        cell *e = lookup(k);
        int bad = 0;
        if (c > n) c = n;
        for (i = o; i < o + c; i++) {
            if (e->w[i] != -1 && e->w[i] != t) bad = 1;
            if (wr && e->r[i] != -1 && e->r[i] != t) bad |= 2;
        }
        if (bad && !(e->crit && in_crit))
            add_err("race", pc, bad & 1 ? e->wpc : e->rpc, p);
        if (!in_crit) e->crit = 0;
        for (i = o; i < o + c; i++) {
            if (wr) e->w[i] = t;
            else if (e->r[i] == -1) e->r[i] = t;
            else if (e->r[i] != t) e->r[i] = -2;
        }
        if (wr) e->wpc = pc; else e->rpc = pc;
        p += c;
        n -= c;
    }
}

static void bounds(u64 p, u64 n, void *pc) {
    int i;
    Dl_info d;
    if (p >= last_ok.a && p + n <= last_ok.b) return;
    if (p >= st_lo && p + n <= st_hi) return;
    for (i = 0; i < n_args; i++)
        if (p >= args_[i].a && p + n <= args_[i].b) { last_ok = args_[i]; return; }
    i = heap_find(p);
    if (i >= 0 && p + n <= heap_[i].b) {
        if (heap_[i].live) { last_ok = heap_[i]; return; }
        add_err("freed", pc, 0, p);
        return;
    }
    if (in_stacks(p)) return;
    if (ok_page[(p >> 12) & 63] == p >> 12) return;
    if (dladdr((void *)p, &d)) { ok_page[(p >> 12) & 63] = p >> 12; return; }
    add_err("bounds", pc, 0, p);
}

static inline void access_(void *p, u64 n, int wr, void *pc) {
    if (!m_bounds && !m_race) return;
    n_access++;
    if (m_bounds) bounds((u64)p, n, pc);
    if (m_race && cur_f && reg_T > 1 && !((u64)p >= (u64)cur_f->stack && (u64)p < (u64)cur_f->stack + STACK))
        note((u64)p, n, wr, pc);
}
#define PC __builtin_return_address(0)
#define RW(n) \
    EXPORT void __tsan_read##n(void *p) { access_(p, n, 0, PC); } \
    EXPORT void __tsan_write##n(void *p) { access_(p, n, 1, PC); } \
    EXPORT void __tsan_read_write##n(void *p) { access_(p, n, 0, PC); access_(p, n, 1, PC); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, PC); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, PC); } \
    EXPORT void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 0, PC); access_(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, u64 n) { access_(p, n, 0, PC); }
EXPORT void __tsan_write_range(void *p, u64 n) { access_(p, n, 1, PC); }
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_vptr_read(void **p) {}
EXPORT void __tsan_vptr_update(void **p, void *v) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access_((void *)s, n, 0, PC);
    access_(d, n, 1, PC);
    return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) {
    access_((void *)s, n, 0, PC);
    access_(d, n, 1, PC);
    return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, size_t n) {
    access_(d, n, 1, PC);
    return memset(d, c, n);
}
EXPORT void *mc_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
EXPORT void *mc_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
EXPORT void *mc_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
/* atomics: ordered by definition */
#define AT(b, T) \
    EXPORT T __tsan_atomic##b##_load(const volatile T *p, int o) { return *p; } \
    EXPORT void __tsan_atomic##b##_store(volatile T *p, T v, int o) { *p = v; } \
    EXPORT T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { T x = *p; *p = v; return x; } \
    EXPORT T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { T x = *p; *p = x + v; return x; } \
    EXPORT T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { T x = *p; *p = x - v; return x; } \
    EXPORT T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { T x = *p; *p = x & v; return x; } \
    EXPORT T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { T x = *p; *p = x | v; return x; } \
    EXPORT T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { T x = *p; *p = x ^ v; return x; } \
    EXPORT T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { \
        T x = *p; if (x == c) *p = v; return x; } \
    EXPORT int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { \
        T x = *p; if (x == *c) { *p = v; return 1; } *c = x; return 0; } \
    EXPORT int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { \
        T x = *p; if (x == *c) { *p = v; return 1; } *c = x; return 0; }
AT(8, int8_t) AT(16, int16_t) AT(32, int32_t) AT(64, i64)
EXPORT void __tsan_atomic_thread_fence(int o) {}
EXPORT void __tsan_atomic_signal_fence(int o) {}

/* ---------------------------------------------------------------- OpenMP */
typedef void (*micro)(int32_t *, int32_t *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                      void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                      void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
                      void *, void *, void *, void *, void *, void *, void *, void *, void *);
#define NARG 40
static void call_micro(micro f, int32_t *g, int32_t *b, void **a) {
    f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
      a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30],
      a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
static micro run_f;
static void **run_a;
static void body(void) {
    fiber *f = cur_f;
    int32_t g = f->tid, b = 0;
    call_micro(run_f, &g, &b, run_a);
    f->done = 1;
    swapcontext(&f->ctx, &main_ctx);
}

static void *fns[512];
static i64 fn_it[512];
static int n_fns;
static void region(micro fn, void **a) {
    i64 t, T, left;
    fiber **fs = NULL;
    i64 nf = 0;
    n_regions++;
    if (++epoch_ == 0) epoch_ = 1;
    tab_used = 0;
    run_f = fn;
    run_a = a;
    reg_n = -1;
    T = m_kind == SEQ ? 1 : m_kind == EACH || m_kind == EACH_REV ? -1 : m_T;
    reg_T = T == -1 ? 1 << 30 : T;
    /* created one by one; kept only when waiting at a barrier */
    t = 0;
    left = 0;
    for (;;) {
        fiber *f;
        if (T != -1 && t >= T) break;
        if (T == -1 && reg_n >= 0 && t >= (reg_n > 2 ? reg_n : 2)) break;
        if (T == -1 && reg_n < 0 && t >= 2) break;
        f = calloc(1, sizeof(fiber));
        f->stack = get_stack();
        f->tid = t;
        n_threads++;
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = STACK;
        f->ctx.uc_link = NULL;
        makecontext(&f->ctx, body, 0);
        cur_f = f;
        swapcontext(&main_ctx, &f->ctx);
        if (f->done) { put_stack(f->stack); free(f); }
        else {
            fs = realloc(fs, sizeof(fiber *) * (nf + 1));
            fs[nf++] = f;
        }
        t++;
    }
    while (nf) { /* all are at a barrier */
        i64 i, k = 0;
        if (++epoch_ == 0) epoch_ = 1;
        tab_used = 0;
        n_barrier++;
        for (i = 0; i < nf; i++) {
            cur_f = fs[m_kind == EACH_REV ? nf - 1 - i : i];
            swapcontext(&main_ctx, &cur_f->ctx);
        }
        for (i = 0; i < nf; i++) {
            if (fs[i]->done) { put_stack(fs[i]->stack); free(fs[i]); }
            else fs[k++] = fs[i];
        }
        nf = k;
    }
    free(fs);
    cur_f = NULL;
    {
        int i;
        for (i = 0; i < n_fns && fns[i] != (void *)fn; i++) {}
        if (i < 512) {
            if (i == n_fns) { fns[n_fns++] = (void *)fn; fn_it[i] = 0; }
            if (reg_n > fn_it[i]) fn_it[i] = reg_n;
        }
    }
    if (reg_n > max_iter) max_iter = reg_n;
    if (reg_n > 0) n_iter += reg_n;
}

EXPORT void __kmpc_fork_call(void *loc, int32_t argc, micro fn, ...) {
    void *a[NARG] = {0};
    va_list ap;
    int i;
    if (argc > NARG) { fprintf(stderr, "ompmc: too many arguments\n"); abort(); }
    va_start(ap, fn);
    for (i = 0; i < argc; i++) a[i] = va_arg(ap, void *);
    va_end(ap);
    if (m_on && m_level == 2 && !in_outer && !cur_f) { /* outer region by one thread */
        int32_t g = 0, b = 0;
        in_outer = 1;
        call_micro(fn, &g, &b, a);
        in_outer = 0;
        return;
    }
    if (cur_f || !m_on) { /* nested: one thread */
        int32_t g = cur_f ? cur_f->tid : 0, b = 0;
        fiber *f = cur_f;
        i64 n = reg_n;
        int kind = m_kind;
        if (f) {
            fiber save = *f;
            m_kind = SEQ;
            call_micro(fn, &g, &b, a);
            m_kind = kind;
            f->lb = save.lb; f->ub = save.ub; f->st = save.st; f->next = save.next; f->cnt = save.cnt; f->cur = save.cur;
        } else {
            call_micro(fn, &g, &b, a);
        }
        reg_n = n;
        return;
    }
    region(fn, a);
}
EXPORT int32_t __kmpc_global_thread_num(void *loc) { return cur_f ? cur_f->tid : 0; }
EXPORT void __kmpc_serialized_parallel(void *loc, int32_t g) {
    fiber *f = cur_f;
    n_serial++;
    if (!f) return;
    if (f->ser < 8) {
        i64 *v = f->sv[f->ser];
        v[0] = f->lb; v[1] = f->ub; v[2] = f->st; v[3] = f->next; v[4] = f->cnt; v[5] = f->cur;
    }
    f->ser++;
}
EXPORT void __kmpc_end_serialized_parallel(void *loc, int32_t g) {
    fiber *f = cur_f;
    if (!f) return;
    f->ser--;
    if (f->ser < 8) {
        i64 *v = f->sv[f->ser];
        f->lb = v[0]; f->ub = v[1]; f->st = v[2]; f->next = v[3]; f->cnt = v[4]; f->cur = v[5];
    }
}
EXPORT void __kmpc_push_num_threads(void *loc, int32_t g, int32_t n) {}

/* number of iterations of thread t, and k-th iteration */
static int whole(void) { return !cur_f || m_kind == SEQ || cur_f->ser; }
static void share(i64 n, i64 t, i64 *a, i64 *b) { /* contiguous part */
    if (m_kind == EACH) { *a = t; *b = t < n ? t + 1 : t; }
    else if (m_kind == EACH_REV) { *a = n - 1 - t; *b = t < n ? n - t : *a; }
    else if (m_kind == SPLIT || m_kind == MASK) {
        i64 s = m_param;
        if (m_kind == MASK) s = __builtin_popcountll(m_param);
        if (s > n) s = n;
        *a = t == 0 ? 0 : s;
        *b = t == 0 ? s : t == 1 ? n : s;
        if (t > 1) *a = *b = n;
    } else {
        i64 q = n / m_T, r = n % m_T;
        *a = t * q + (t < r ? t : r);
        *b = *a + q + (t < r ? 1 : 0);
    }
}
#define SINIT(name, T, ST) \
    EXPORT void __kmpc_for_static_init_##name(void *loc, int32_t g, int32_t sched, int32_t *last, T *lo, T *up, \
                                              ST *stride, ST incr, ST chunk) { \
        i64 n, a, b, l = (i64)*lo; \
        n = incr > 0 ? ((i64)*up - l) / incr + 1 : ((i64)*up - l) / incr + 1; \
        if (incr > 0 ? *up < *lo : *lo < *up) n = 0; \
        if (whole()) { if (last) *last = 1; *stride = (ST)(n + 1) * incr; if (cur_f && !cur_f->ser) reg_n = n; return; } \
        reg_n = n; \
        share(n, cur_f->tid, &a, &b); \
        *stride = (ST)(n + 1) * incr; \
        if (last) *last = (b == n && b > a); \
        if (b <= a) { *lo = (T)(l + n * incr); *up = (T)(l + n * incr - incr); \
            if (n == 0) { *lo = 1; *up = 0; } \
        } else { *lo = (T)(l + a * incr); *up = (T)(l + (b - 1) * incr); } \
    }
SINIT(4, int32_t, int32_t) SINIT(4u, uint32_t, int32_t) SINIT(8, i64, i64) SINIT(8u, u64, i64)
EXPORT void __kmpc_for_static_fini(void *loc, int32_t g) {}

static fiber serial_f;
static int mine(i64 i) { /* is iteration i of the current thread */
    i64 t = cur_f->tid;
    switch (m_kind) {
    case EACH: return i == t;
    case EACH_REV: return i == reg_n - 1 - t;
    case MASK: return ((m_param >> (i % 62)) & 1) == t;
    case ROBIN: return i % m_T == t;
    default: { i64 a, b; share(reg_n, t, &a, &b); return i >= a && i < b; }
    }
}
static void dinit(i64 lb, i64 ub, i64 st) {
    fiber *f = cur_f ? cur_f : &serial_f;
    f->lb = lb;
    f->st = st;
    f->cnt = (st > 0 ? ub >= lb : ub <= lb) ? (ub - lb) / st + 1 : 0;
    f->cur = 0;
    if (cur_f && !cur_f->ser) reg_n = f->cnt;
}
static int dnext(int32_t *last, i64 *lo, i64 *up) {
    fiber *f = cur_f ? cur_f : &serial_f;
    if (whole()) {
        if (f->cur >= f->cnt) return 0;
        *lo = f->lb;
        *up = f->lb + (f->cnt - 1) * f->st;
        f->cur = f->cnt;
        if (last) *last = 1;
        return 1;
    }
    if (m_kind == EACH) { i64 t = f->tid; if (f->cur > t) return 0; f->cur = t; }
    if (m_kind == EACH_REV) { i64 i = f->cnt - 1 - f->tid; if (f->cur > i || i < 0) return 0; f->cur = i; }
    while (f->cur < f->cnt && !mine(f->cur)) f->cur++;
    if (f->cur >= f->cnt) return 0;
    *lo = *up = f->lb + f->cur * f->st;
    if (last) *last = f->cur == f->cnt - 1;
    f->cur++;
    return 1;
}
#define DISP(name, T, ST) \
    EXPORT void __kmpc_dispatch_init_##name(void *loc, int32_t g, int32_t s, T lb, T ub, ST st, ST ch) { \
        dinit(lb, ub, st); } \
    EXPORT int32_t __kmpc_dispatch_next_##name(void *loc, int32_t g, int32_t *last, T *lo, T *up, ST *st) { \
        i64 a, b; int r = dnext(last, &a, &b); \
        if (r) { *lo = (T)a; *up = (T)b; if (st) *st = (ST)(cur_f ? cur_f->st : serial_f.st); } return r; } \
    EXPORT void __kmpc_dispatch_fini_##name(void *loc, int32_t g) {}
DISP(4, int32_t, int32_t) DISP(4u, uint32_t, int32_t) DISP(8, i64, i64) DISP(8u, u64, i64)
EXPORT void __kmpc_dispatch_deinit(void *loc, int32_t g) {}

EXPORT int32_t __kmpc_reduce_nowait(void *loc, int32_t g, int32_t n, size_t s, void *d, void *f, void *l) { in_crit++; return 1; }
EXPORT void __kmpc_end_reduce_nowait(void *loc, int32_t g, void *l) { in_crit--; }
EXPORT int32_t __kmpc_reduce(void *loc, int32_t g, int32_t n, size_t s, void *d, void *f, void *l) { in_crit++; return 1; }
EXPORT void __kmpc_barrier(void *loc, int32_t g) {
    fiber *f = cur_f;
    if (!f || m_kind == SEQ || f->ser) return;
    swapcontext(&f->ctx, &main_ctx);
    cur_f = f;
}
EXPORT void __kmpc_end_reduce(void *loc, int32_t g, void *l) { in_crit--; __kmpc_barrier(loc, g); }
EXPORT void __kmpc_critical(void *loc, int32_t g, void *l) { in_crit++; }
EXPORT void __kmpc_critical_with_hint(void *loc, int32_t g, void *l, uint32_t h) { in_crit++; }
EXPORT void __kmpc_end_critical(void *loc, int32_t g, void *l) { in_crit--; }
EXPORT int32_t __kmpc_single(void *loc, int32_t g) { return !cur_f || cur_f->tid == 0; }
EXPORT void __kmpc_end_single(void *loc, int32_t g) {}
EXPORT int32_t __kmpc_master(void *loc, int32_t g) { return !cur_f || cur_f->tid == 0; }
EXPORT void __kmpc_end_master(void *loc, int32_t g) {}
EXPORT int32_t __kmpc_masked(void *loc, int32_t g, int32_t fil) { return !cur_f || cur_f->tid == fil; }
EXPORT void __kmpc_end_masked(void *loc, int32_t g) {}
EXPORT void __kmpc_flush(void *loc) {}
EXPORT int omp_get_max_threads(void) { return cur_f ? 1 : m_max_threads; }
EXPORT int omp_get_num_threads(void) { return cur_f ? (reg_T > 1000000 ? m_max_threads : (int)reg_T) : 1; }
EXPORT int omp_get_thread_num(void) { return cur_f ? cur_f->tid : 0; }
EXPORT int omp_in_parallel(void) { return cur_f != NULL; }
EXPORT int omp_get_num_procs(void) { return m_max_threads; }
EXPORT void omp_set_num_threads(int n) {}
EXPORT double omp_get_wtime(void) { return 0; }

/* LAPACK called within parallel loops */
EXPORT int LAPACKE_zheev(int layout, char jobz, char uplo, int n, void *a, int lda, double *w) {
    static int (*real)(int, char, char, int, void *, int, double *);
    if (!real) real = dlsym(RTLD_NEXT, "LAPACKE_zheev");
    access_(a, (u64)n * lda * 16, 1, PC);
    access_(w, (u64)n * 8, 1, PC);
    return real(layout, jobz, uplo, n, a, lda, w);
}

/* ---------------------------------------------------------------- control */
EXPORT void mc_mode(int kind, i64 T, i64 param, int heap, int stack) {
    m_kind = kind;
    m_T = T;
    m_param = param;
    m_heap = heap;
    m_stack = stack;
}
EXPORT void mc_level(int l) { m_level = l; }
EXPORT void mc_start(int b) {
    in_outer = 0;
    if (!st_hi) {
        pthread_attr_t at;
        void *s;
        size_t n;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &s, &n);
        pthread_attr_destroy(&at);
        st_lo = (u64)s;
        st_hi = (u64)s + n;
    }
    last_ok.a = last_ok.b = 0;
    nerr = 0;
    m_bounds = b & 1;
    m_race = b & 2;
    m_on = 1;
}
EXPORT int mc_stop(void) {
    int i, leak = 0;
    m_on = m_bounds = m_race = 0;
    cur_f = NULL;
    in_crit = 0;
    for (i = 0; i < n_heap; i++) leak += heap_[i].live;
    purge();
    n_args = 0;
    return leak;
}
EXPORT int mc_nerr(void) { return nerr; }
EXPORT const char *mc_err(int i) { return errs[i]; }
EXPORT void mc_stats(i64 *o, int reset) {
    o[0] = n_regions; o[1] = n_threads; o[2] = n_iter; o[3] = n_access; o[4] = n_alloc; o[5] = n_barrier;
    o[6] = n_serial; o[7] = max_iter;
    if (reset) n_regions = n_threads = n_iter = n_access = n_alloc = n_barrier = n_serial = max_iter = 0;
}
EXPORT __attribute__((noinline)) void mc_dirty(int fill) {
    volatile char x[96 * 1024];
    size_t i;
    for (i = 0; i < sizeof(x); i++) x[i] = fill;
}

EXPORT int mc_fn(int i, char *o, int n) { /* regions which were executed */
    Dl_info d;
    if (i >= n_fns) return 0;
    if (dladdr(fns[i], &d)) snprintf(o, n, "%s|0x%lx|%ld", d.dli_fname, (u64)fns[i] - (u64)d.dli_fbase, (long)fn_it[i]);
    else o[0] = 0;
    return 1;
}
