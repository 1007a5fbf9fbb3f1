// A controlled OpenMP runtime: the threads of a parallel region are coroutines of
// one OS thread, which the schedule given by the caller switches at chosen points.
// The code under test is compiled with -fsanitize=thread, whose calls before every
// memory access are answered here (libtsan and libgomp are not linked), so that
// every access of the region is seen: conflicting accesses of different threads are
// collected by instruction, and every access by such an instruction is a point where the
// schedule may switch.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ucontext.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <string>
#include <map>

#define NT 64
#define STK (1 << 20)
#define HOOK extern "C" __attribute__((visibility("default")))

struct Thread {
    ucontext_t ctx;
    char *stack = nullptr;
    int state;              // 0 ready, 1 at a barrier, 2 done, 3 waits for a lock
    void *lock;
    unsigned singles, loops;
};
struct Loop { long next, end, incr, chunk; int users; };
struct Ent { uintptr_t pc; uint8_t t, w, r; };
struct Word { std::vector<Ent> e; };

static Thread T[NT];
static ucontext_t home;
static int nthr = 0, cur = -1, inhibit = 0;
static bool active = false, deadlock = false;
static void (*body)(void *);
static void *body_arg;
static int team_limit = 0, default_team = 4;

// decisions
static std::vector<int> script;                 // choices to follow
static std::vector<int> dec_choice, dec_cur, dec_nready;
static std::vector<uint64_t> dec_ready;
static std::unordered_set<uintptr_t> hot;       // instructions with conflicts
static std::unordered_set<uintptr_t> found;     // conflicts seen in this execution
static long accesses = 0, regions = 0, switches = 0, uaf = 0, threads_max = 0;
static std::unordered_map<uintptr_t, Word> mem;
static std::map<void *, int> locks;             // owner + 1
static std::vector<unsigned char> single_taken;
static std::vector<Loop> loopv;
static long long cap = 4000000;

static int choose(int current, bool forced) {
    // one decision: which ready thread runs next
    uint64_t ready = 0;
    int n = 0, first = -1;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == 0) { ready |= 1ull << i; n++; if (first < 0) first = i; }
    if (n == 0) return -1;
    int def = (!forced && current >= 0 && T[current].state == 0) ? current : first;
    int ch = def;
    if (n > 1) {
        size_t k = dec_choice.size();
        if (k < script.size() && script[k] >= 0 && (ready >> script[k] & 1)) ch = script[k];
        dec_choice.push_back(ch);
        dec_cur.push_back(forced ? -1 : current);
        dec_ready.push_back(ready);
    }
    return ch;
}

static void to_sched(int me) { swapcontext(&T[me].ctx, &home); }

static void point() {
    // a point where the running thread may be preempted
    if (!active || cur < 0 || inhibit) return;
    int me = cur;
    int ch = choose(me, false);
    if (ch != me && ch >= 0) {
        switches++;
        cur = ch + 1000;        // the scheduler goes to ch
        to_sched(me);
    }
}

static void thread_main(int i) {
    body(body_arg);
    T[i].state = 2;
    to_sched(i);
}

static void new_epoch() { mem.clear(); }

static void access_mem(void *p, size_t n, bool write, uintptr_t pc) {
    if (!active || cur < 0) return;
    accesses++;
    if (accesses > cap) return;
    if (hot.count(pc)) point();
    uintptr_t a = (uintptr_t)p, z = a + n;
    while (a < z) {
        uintptr_t w = a >> 3, e = std::min(z, (w + 1) << 3);
        uint8_t mask = 0;
        for (uintptr_t q = a; q < e; q++) mask |= 1 << (q & 7);
        a = e;
        bool seen = false;
        for (Ent &x : mem[w].e) {
            if (x.t != cur && ((write ? x.w | x.r : x.w) & mask)) { found.insert(pc); found.insert(x.pc); }
            if (x.t == cur && x.pc == pc) { (write ? x.w : x.r) |= mask; seen = true; }
        }
        if (!seen) mem[w].e.push_back(Ent{pc, (uint8_t)cur, (uint8_t)(write ? mask : 0), (uint8_t)(write ? 0 : mask)});
    }
}

// ------------------------------------------------------------------ memory of the region
// freed memory is kept until the region ends (an address belongs to one allocation), new
// memory holds NaN
struct Blk { size_t n; bool freed; };
static std::map<uintptr_t, Blk> blks;

HOOK void *ompmc_malloc(size_t n) {
    void *p = malloc(n);
    if (p) { double nan = 0./0.; for (size_t k = 0; k + 8 <= n; k += 8) memcpy((char *)p + k, &nan, 8); }
    if (active && p) blks[(uintptr_t)p] = Blk{n, false};
    return p;
}
HOOK void ompmc_free(void *p) {
    if (active && p) {
        auto it = blks.find((uintptr_t)p);
        if (it == blks.end()) { blks[(uintptr_t)p] = Blk{0, true}; return; }
        if (it->second.freed) { uaf++; return; }
        it->second.freed = true;
        size_t n = it->second.n;
        double nan = 0./0.;
        for (size_t k = 0; k + 8 <= n; k += 8) memcpy((char *)p + k, &nan, 8);
        return;
    }
    free(p);
}
HOOK void *ompmc_calloc(size_t a, size_t b) {
    void *p = calloc(a, b);
    if (active && p) blks[(uintptr_t)p] = Blk{a*b, false};
    return p;
}
HOOK void *ompmc_realloc(void *p, size_t n) {
    if (!active) return realloc(p, n);
    void *q = ompmc_malloc(n);
    auto it = blks.find((uintptr_t)p);
    if (p && it != blks.end()) { memcpy(q, p, std::min(n, it->second.n)); ompmc_free(p); }
    return q;
}
HOOK void *ompmc_memcpy(void *d, const void *s, size_t n) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    access_mem((void *)s, n, false, pc); access_mem(d, n, true, pc);
    return memcpy(d, s, n);
}
HOOK void *ompmc_memmove(void *d, const void *s, size_t n) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    access_mem((void *)s, n, false, pc); access_mem(d, n, true, pc);
    return memmove(d, s, n);
}
HOOK void *ompmc_memset(void *d, int v, size_t n) {
    access_mem(d, n, true, (uintptr_t)__builtin_return_address(0));
    return memset(d, v, n);
}
HOOK int ompmc_gil_ensure(int (*real)(void)) { inhibit++; return real(); }
HOOK void ompmc_gil_release(void (*real)(int), int s) { real(s); inhibit--; }
HOOK void *ompmc_gil_save(void *(*real)(void)) { if (active && cur >= 0) inhibit--; return real(); }
HOOK void ompmc_gil_restore(void (*real)(void *), void *s) { real(s); if (active && cur >= 0) inhibit++; }

// ------------------------------------------------------------------ the region
HOOK void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    if (active) { fn(data); return; }       // nested regions have one thread
    int want = n ? (int)n : default_team;
    if (team_limit && want > team_limit) want = team_limit;
    if (want > NT) want = NT;
    nthr = want;
    if (want > threads_max) threads_max = want;
    body = fn; body_arg = data;
    regions++;
    active = true; deadlock = false; inhibit = 0;
    mem.clear(); blks.clear(); locks.clear(); single_taken.clear(); loopv.clear();
    for (int i = 0; i < nthr; i++) {
        if (!T[i].stack)
            T[i].stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        T[i].state = 0; T[i].lock = nullptr; T[i].singles = T[i].loops = 0;
        getcontext(&T[i].ctx);
        T[i].ctx.uc_stack.ss_sp = T[i].stack;
        T[i].ctx.uc_stack.ss_size = STK;
        T[i].ctx.uc_link = &home;
        makecontext(&T[i].ctx, (void (*)())thread_main, 1, i);
    }
    cur = -1;
    int next = choose(-1, true);
    while (next >= 0) {
        cur = next;
        swapcontext(&home, &T[next].ctx);
        if (cur >= 1000) { next = cur - 1000; continue; }
        // the thread ended or waits
        bool bar = true, any = false;
        for (int i = 0; i < nthr; i++) {
            if (T[i].state == 0) bar = false;
            if (T[i].state == 3) bar = false;
            if (T[i].state == 1) any = true;
        }
        if (bar && any) {
            bool all = true;
            for (int i = 0; i < nthr; i++) if (T[i].state == 2) all = false;
            if (!all) { deadlock = true; }
            for (int i = 0; i < nthr; i++) if (T[i].state == 1) T[i].state = 0;
            new_epoch();
        }
        next = choose(-1, true);
    }
    for (int i = 0; i < nthr; i++) if (T[i].state != 2) deadlock = true;
    cur = -1;
    active = false;
    for (auto &b : blks) if (b.second.freed) free((void *)b.first);
    blks.clear();
}

static void do_barrier() {
    if (!active || cur < 0) return;
    int me = cur;
    T[me].state = 1;
    to_sched(me);
}
HOOK void GOMP_barrier() { do_barrier(); }
HOOK bool GOMP_cancel(int, bool) { return false; }
HOOK bool GOMP_barrier_cancel() { do_barrier(); return false; }

static char thelock, theatomic;
static void lock_on(void *l) {
    if (!active || cur < 0) return;
    point();
    int me = cur;
    while (locks[l]) { T[me].state = 3; T[me].lock = l; to_sched(me); }
    locks[l] = me + 1;
}
static void lock_off(void *l) {
    if (!active || cur < 0) return;
    locks[l] = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == 3 && T[i].lock == l) T[i].state = 0;
    point();
}
HOOK void GOMP_critical_start() { lock_on(&thelock); }
HOOK void GOMP_critical_end() { lock_off(&thelock); }
HOOK void GOMP_critical_name_start(void **p) { lock_on(p); }
HOOK void GOMP_critical_name_end(void **p) { lock_off(p); }
HOOK void GOMP_atomic_start() { lock_on(&theatomic); }
HOOK void GOMP_atomic_end() { lock_off(&theatomic); }
HOOK bool GOMP_single_start() {
    if (!active || cur < 0) return true;
    point();
    unsigned k = T[cur].singles++;
    if (single_taken.size() <= k) single_taken.resize(k + 1, 0);
    if (single_taken[k]) return false;
    single_taken[k] = 1;
    return true;
}

static Loop *loop_of(long start, long end, long incr, long chunk) {
    unsigned k = T[cur].loops++;
    if (loopv.size() <= k) { loopv.reserve(1024); loopv.push_back(Loop{start, end, incr, chunk > 0 ? chunk : 1, 0}); }
    return &loopv[k];
}
static bool loop_next(Loop *l, long *a, long *b) {
    point();
    long left = l->incr > 0 ? (l->end - l->next + l->incr - 1)/l->incr : (l->next - l->end - l->incr - 1)/(-l->incr);
    if (left <= 0) return false;
    long k = std::min(left, l->chunk);
    *a = l->next; l->next += k*l->incr; *b = l->next;
    if (l->incr > 0 ? *b > l->end : *b < l->end) *b = l->end;
    return true;
}
static Loop serial;
static bool start_loop(long s, long e, long i, long c, long *a, long *b) {
    if (!active || cur < 0) { *a = s; *b = e; serial = Loop{e, e, i, 1, 0}; return i > 0 ? s < e : s > e; }
    return loop_next(loop_of(s, e, i, c), a, b);
}
static bool more_loop(long *a, long *b) {
    if (!active || cur < 0) return false;
    return loop_next(&loopv[T[cur].loops - 1], a, b);
}
#define LOOPS(kind) \
    HOOK bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return start_loop(s, e, i, c, a, b); } \
    HOOK bool GOMP_loop_##kind##_next(long *a, long *b) { return more_loop(a, b); } \
    HOOK void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
#define LOOPS0(kind) \
    HOOK bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return start_loop(s, e, i, 1, a, b); } \
    HOOK bool GOMP_loop_##kind##_next(long *a, long *b) { return more_loop(a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
LOOPS0(runtime) LOOPS0(maybe_nonmonotonic_runtime) LOOPS0(nonmonotonic_runtime)
HOOK void GOMP_loop_end() { do_barrier(); }
HOOK void GOMP_loop_end_nowait() {}
static void par_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
#define PARLOOP(kind) HOOK void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c, f); }
PARLOOP(static) PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
HOOK void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1, f); }
HOOK void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1, f); }
struct PL { void (*fn)(void *); void *d; Loop l; };
static void par_main(void *q) {
    PL *p = (PL *)q;
    if (active && cur >= 0) loop_of(p->l.next, p->l.end, p->l.incr, p->l.chunk);
    p->fn(p->d);
}
static void par_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) {
    PL p{fn, d, Loop{s, e, i, c > 0 ? c : 1, 0}};
    GOMP_parallel(par_main, &p, n, f);
}
HOOK int omp_get_thread_num() { return active && cur >= 0 ? cur : 0; }
HOOK int omp_get_num_threads() { return active ? nthr : 1; }
HOOK int omp_get_max_threads() { return team_limit && team_limit < default_team ? team_limit : default_team; }
HOOK int omp_get_num_procs() { return default_team; }
HOOK void omp_set_num_threads(int n) { default_team = n; }
HOOK int omp_in_parallel() { return active; }
HOOK void omp_set_dynamic(int) {}
HOOK int omp_get_dynamic() { return 0; }

// ------------------------------------------------------------------ accesses
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
    HOOK void __tsan_read##n(void *p) { access_mem(p, n, false, PC); } \
    HOOK void __tsan_write##n(void *p) { access_mem(p, n, true, PC); } \
    HOOK void __tsan_unaligned_read##n(void *p) { access_mem(p, n, false, PC); } \
    HOOK void __tsan_unaligned_write##n(void *p) { access_mem(p, n, true, PC); } \
    HOOK void __tsan_volatile_read##n(void *p) { access_mem(p, n, false, PC); } \
    HOOK void __tsan_volatile_write##n(void *p) { access_mem(p, n, true, PC); } \
    HOOK void __tsan_read_write##n(void *p) { access_mem(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void *p, size_t n) { access_mem(p, n, false, PC); }
HOOK void __tsan_write_range(void *p, size_t n) { access_mem(p, n, true, PC); }
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void *) {}
HOOK void __tsan_func_exit() {}
HOOK void __tsan_vptr_update(void **, void *) {}
HOOK void __tsan_vptr_read(void **) {}
template <class X> static X atom(X *p, X v, int op, uintptr_t pc) {
    access_mem(p, sizeof(X), true, pc);
    X o = *p;
    switch (op) { case 0: *p = v; break; case 1: *p = o + v; break; case 2: *p = o - v; break;
                  case 3: *p = o & v; break; case 4: *p = o | v; break; case 5: *p = o ^ v; break; }
    return o;
}
#define AT(b, X) \
    HOOK X __tsan_atomic##b##_load(X *p, int) { access_mem(p, sizeof(X), false, PC); return *p; } \
    HOOK void __tsan_atomic##b##_store(X *p, X v, int) { access_mem(p, sizeof(X), true, PC); *p = v; } \
    HOOK X __tsan_atomic##b##_exchange(X *p, X v, int) { return atom(p, v, 0, PC); } \
    HOOK X __tsan_atomic##b##_fetch_add(X *p, X v, int) { return atom(p, v, 1, PC); } \
    HOOK X __tsan_atomic##b##_fetch_sub(X *p, X v, int) { return atom(p, v, 2, PC); } \
    HOOK X __tsan_atomic##b##_fetch_and(X *p, X v, int) { return atom(p, v, 3, PC); } \
    HOOK X __tsan_atomic##b##_fetch_or(X *p, X v, int) { return atom(p, v, 4, PC); } \
    HOOK X __tsan_atomic##b##_fetch_xor(X *p, X v, int) { return atom(p, v, 5, PC); } \
    HOOK int __tsan_atomic##b##_compare_exchange_strong(X *p, X *c, X v, int, int) { access_mem(p, sizeof(X), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    HOOK int __tsan_atomic##b##_compare_exchange_weak(X *p, X *c, X v, int, int) { access_mem(p, sizeof(X), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    HOOK X __tsan_atomic##b##_compare_exchange_val(X *p, X c, X v, int, int) { access_mem(p, sizeof(X), true, PC); X o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
HOOK void __tsan_atomic_thread_fence(int) {}
HOOK void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ control
HOOK void ompmc_begin(const int *s, int n, int limit) {
    script.assign(s, s + n);
    dec_choice.clear(); dec_cur.clear(); dec_ready.clear(); found.clear();
    accesses = regions = switches = uaf = threads_max = 0;
    team_limit = limit;
    deadlock = false;
}
HOOK int ompmc_decisions(int *choice, int *cur_, uint64_t *ready, int max) {
    int n = (int)dec_choice.size();
    for (int i = 0; i < n && i < max; i++) { choice[i] = dec_choice[i]; cur_[i] = dec_cur[i]; ready[i] = dec_ready[i]; }
    return n;
}
HOOK int ompmc_found(uint64_t *out, int max) {
    int k = 0;
    for (uintptr_t p : found) { if (k < max) out[k] = p; k++; }
    return k;
}
HOOK void ompmc_hot(const uint64_t *p, int n) { hot.clear(); for (int i = 0; i < n; i++) hot.insert((uintptr_t)p[i]); }
HOOK void ompmc_stats(long *out) { out[0] = accesses; out[1] = regions; out[2] = switches; out[3] = uaf; out[4] = threads_max; out[5] = deadlock; }
