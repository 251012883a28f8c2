// Fibers, the scheduler, and the thread sanitizer's callbacks: use of freed or foreign memory, data races, deadlock.
#include "fibers.h"
#include <cstring>
#include <exception>
#include <algorithm>
#include <sys/mman.h>
#include <ucontext.h>
#define X(v) ((unsigned long long)(v))

enum { MAXF = 6 };
struct Cell { u32 r[MAXF], w; u8 wt, st, owner, flags; };        // one per byte of arena; st: 0 never allocated, 1 live, 2 freed; flags: 1 seen by more than one thread, 2 used atomically
static_assert(sizeof(Cell) == 32, "");
static const u64 ARENA = 64ull << 20;
static u8 *arena, *top; static Cell *shadow; static std::map<u8 *, std::pair<size_t, u64>> blocks; static u64 nblocks;

struct VC { u32 c[MAXF] = {}; void join(const VC &o) { for (int k = 0; k < MAXF; k++) c[k] = std::max(c[k], o.c[k]); } };
struct Fiber { ucontext_t ctx; u8 *stack = nullptr; std::function<void()> fn; int st = 2; void *on = nullptr; int lib = 0; VC vc; s64 prio = 0; };
static Fiber fib[MAXF]; static ucontext_t main_ctx; static int cur = -1, nfib; static bool failed; static VC mainvc;
static std::map<void *, VC> mvc; struct At { VC sync; u32 r[MAXF] = {}, w[MAXF] = {}; }; static std::map<u64, At> atm;
static int strat; static s64 quantum; static u32 qmean; static u64 points, switches; static std::vector<u64> change; static size_t nextchange;
static const size_t STACK = 4 << 20;

static void init() { if (arena) return; arena = (u8 *) mmap((void *) 0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); shadow = (Cell *) mmap(nullptr, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED || shadow == MAP_FAILED) { perror("arena"); exit(3); } top = arena + 64; }
static inline bool in(const void *p) { return (u64) p - (u64) arena < ARENA; }
static inline Cell *cell(const void *p) { return shadow + ((u8 *) p - arena); }
void arena_reset() { init(); u64 used = (u64)(top - arena) + 64; if (used * sizeof(Cell) > (8u << 20)) { madvise(shadow, ARENA * sizeof(Cell), MADV_DONTNEED); } else memset(shadow, 0, used * sizeof(Cell)); top = arena + 64; blocks.clear(); nblocks = 0; mvc.clear(); atm.clear(); points = switches = 0; }
static void point(const char *what);
void *arena_alloc(size_t n, size_t align)
{
    init(); if (n > ARENA / 4 || top + n + align + 64 > arena + ARENA) return nullptr;
    u8 *p = (u8 *)(((u64) top + align - 1) & ~(u64)(align - 1)); size_t m = n ? n : 1; top = p + m + 32;
    for (size_t k = 0; k < m; k++) { Cell &c = *cell(p + k); memset(&c, 0, sizeof c); c.st = n ? 1 : 0; c.owner = 0xff; }
    memset(p, 0xbe, n); blocks[p] = {n, ++nblocks}; if (cur >= 0) point("alloc"); return p;
}
static std::string where(const void *p)
{
    auto i = blocks.upper_bound((u8 *) p); if (i == blocks.begin()) return "?"; --i; char b[100]; snprintf(b, sizeof b, "byte %llu of allocation #%llu (%zu bytes)", X((u8 *) p - i->first), X(i->second.second), i->second.first); return b;
}
static void acc(const void *p, size_t n, bool w, bool atomic, void *pc);
bool arena_free(void *p)
{
    if (!in(p)) return false;
    auto i = blocks.find((u8 *) p); if (i == blocks.end()) sim.fail("bad-free", "freeing %s", where(p).c_str());
    if (i->second.first && cell(p)->st != 1) sim.fail("double-free", "freeing %s again", where(p).c_str());
    acc(p, i->second.first, true, false, __builtin_return_address(0)); for (size_t k = 0; k < i->second.first; k++) cell((u8 *) p + k)->st = 2; if (cur >= 0) point("free"); return true;
}
size_t arena_size(void *p) { auto i = blocks.find((u8 *) p); return i == blocks.end() ? 0 : i->second.first; }
void arena_poison(void *p, size_t n) { for (size_t k = 0; k < n; k++) cell((u8 *) p + k)->st = 0; }

// ---- scheduling
static void newq() { quantum = qmean <= 1 ? 1 : 1 + sim.d(2 * qmean); }
static void switch_to(int k)
{
    int o = cur; if (k == o) return; switches++; sim.h(0x5c0000 + k); if (o >= 0) fib[o].lib = seam.lib; cur = k; seam.lib = k >= 0 ? fib[k].lib : 0;
    swapcontext(o >= 0 ? &fib[o].ctx : &main_ctx, k >= 0 ? &fib[k].ctx : &main_ctx);
}
static int pick(bool other)
{
    int c[MAXF], n = 0; for (int k = 0; k < nfib; k++) if (fib[k].st == 0 && !(other && k == cur)) c[n++] = k;
    if (!n) return -1;
    if (strat == 1) { int b = c[0]; for (int k = 1; k < n; k++) if (fib[c[k]].prio > fib[b].prio) b = c[k]; return b; }
    return c[sim.d((u32) n)];
}
static void resched(const char *what) { int k = pick(strat != 1); newq(); if (k >= 0 && k != cur) { LOG("    (%d -> %d at %s)", cur + 1, k + 1, what); switch_to(k); } }
static void point(const char *what)
{
    if (cur < 0 || failed || std::uncaught_exceptions()) return;
    points++;
    if (strat == 1) { if (nextchange < change.size() && points >= change[nextchange]) { fib[cur].prio = -(s64) nextchange - 1; nextchange++; resched(what); } return; }
    if (strat == 2) { if (what[0] != 'm' && sim.p(1, qmean < 8 ? 3 : 12)) { resched(what); return; } }
    if (--quantum <= 0) resched(what);
}
static void entry(int k)
{
    fib[k].fn(); fib[k].st = 2; mainvc.join(fib[k].vc); fib[k].fn = nullptr;
    int n = pick(true); if (n < 0) for (int j = 0; j < nfib; j++) if (fib[j].st == 1) sim.fail("deadlock", "all remaining threads wait for locks held by threads that have ended");
    int o = cur; cur = n; seam.lib = n >= 0 ? fib[n].lib : 0; (void) o; setcontext(n >= 0 ? &fib[n].ctx : &main_ctx);
}
static void escape() { failed = true; cur = -1; setcontext(&main_ctx); }
static int h_self() { return cur + 1; }
static void h_yield(const char *w) { point(w); }
static bool h_block(void *m)
{
    fib[cur].st = 1; fib[cur].on = m; int k = pick(true);
    if (k < 0) { fib[cur].st = 0; sim.fail("deadlock", "every thread waits for a lock"); }
    LOG("    (%d waits, %d runs)", cur + 1, k + 1); newq(); switch_to(k); return true;
}
static void h_wake(void *m) { for (int k = 0; k < nfib; k++) if (fib[k].st == 1 && fib[k].on == m) { fib[k].st = 0; fib[k].on = nullptr; } }
static void h_acquire(void *m) { if (cur >= 0) fib[cur].vc.join(mvc[m]); }
static void h_release(void *m) { if (cur >= 0) { mvc[m] = fib[cur].vc; fib[cur].vc.c[cur]++; } }
static SchedHooks hooks = { h_self, h_yield, h_block, h_wake, h_acquire, h_release };
int par_self() { return cur + 1; }
void par_point(const char *w) { point(w); }
u64 par_now() { return ++points; }
void par_run(const std::vector<std::function<void()>> &fns, u64 max_steps)
{
    if (fns.size() > MAXF) { fprintf(stderr, "simulator bug: too many threads\n"); abort(); }
    nfib = (int) fns.size(); failed = false; u64 base = points, sw0 = switches; change.clear(); nextchange = 0; mvc.clear(); atm.clear();
    strat = (int) sim.d(3); static const u32 means[] = {2, 1, 4, 10, 40, 200, 1500}; qmean = means[sim.d(7)];
    if (strat == 1) { u32 d = sim.d(6), span = 1u << sim.range(4, 13); for (u32 k = 0; k < d; k++) change.push_back(base + 1 + sim.d(span)); std::sort(change.begin(), change.end()); }
    for (u8 *p = arena; p && p < top; p++) { Cell &c = *cell(p); if (c.st == 1) { memset(c.r, 0, sizeof c.r); c.w = 0; c.owner = 0xff; c.flags = 0; } }
    mainvc = VC();
    for (int k = 0; k < nfib; k++) {
        Fiber &f = fib[k]; if (!f.stack) f.stack = (u8 *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        f.fn = fns[k]; f.st = 0; f.lib = 0; f.on = nullptr; f.vc = VC(); f.vc.c[k] = 1; f.prio = strat == 1 ? (s64) sim.d(1000) : 0;
        getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, (void (*)()) entry, 1, k);
    }
    newq(); u64 ob = sim.budget; sim.budget = sim.steps + max_steps; const char *ow = sim.budget_what; sim.budget_what = "threads"; sched_hooks = &hooks; sim.escape = escape; int l = seam.lib; seam.lib = 0;
    int k = pick(false); if (k >= 0) switch_to(k);
    sched_hooks = nullptr; cur = -1; sim.escape = nullptr; sim.budget = ob; sim.budget_what = ow; seam.lib = l; sim.count("switches", switches - sw0); sim.count("scheduling-points", points - base);
    for (int j = 0; j < nfib; j++) fib[j].fn = nullptr;
    if (failed) siglongjmp(*sim.jb, 1);
}

// ---- memory accesses of the library
static void race(const char *k1, const char *k2, const void *p, void *pc, int other)
{
    sim.fail("data-race", "%s by thread %d and earlier unordered %s by thread %d: %s [pc %llx]", k1, cur + 1, k2, other + 1, where(p).c_str(), X(pc));
}
bool (*race_benign)(const void *p, size_t blocksize, size_t off);
static void acc(const void *p, size_t n, bool w, bool atomic, void *pc)
{
    if (!in(p) || !n) return;
    bool shared = false;
    for (size_t k = 0; k < n; k++) {
        const u8 *q = (const u8 *) p + k; if (!in(q)) break; Cell &c = *cell(q);
        if (c.st != 1) sim.fail(c.st == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %s [pc %llx]", w ? "write" : "read", n, where(q).c_str(), X(pc));
        if (cur < 0) continue;
        if (c.owner == 0xff) c.owner = (u8) cur; else if (c.owner != cur) c.flags |= 1;
        if (c.flags & 1) shared = true;
        VC &v = fib[cur].vc; bool bad = false; const char *what = ""; int who = 0;
        if (c.w && c.wt != cur && c.w > v.c[c.wt]) { bad = true; what = "write"; who = c.wt; }
        if (w) for (int u = 0; u < nfib; u++) if (u != cur && c.r[u] > v.c[u]) { bad = true; what = "read"; who = u; }
        if (!atomic && (c.flags & 2)) { auto i = atm.find((u64) q & ~7ull); if (i != atm.end()) for (int u = 0; u < nfib; u++) if (u != cur && (i->second.w[u] > v.c[u] || (w && i->second.r[u] > v.c[u]))) { bad = true; what = "atomic access"; who = u; } }
        if (bad) { auto b = blocks.upper_bound((u8 *) q); --b; if (!race_benign || !race_benign(q, b->second.first, (size_t)(q - b->first))) race(w ? "write" : "read", what, q, pc, who); }
        if (atomic) c.flags |= 2;
        else if (w) { c.w = v.c[cur]; c.wt = (u8) cur; }
        else c.r[cur] = v.c[cur];
    }
    if (shared || atomic) point(atomic ? "atomic" : "memory");
}
static void atomic_op(const void *p, size_t n, bool rd, bool wr, int mo, void *pc)
{
    acc(p, n, wr, true, pc); if (cur < 0 || !in(p)) return;
    At &a = atm[(u64) p & ~7ull]; VC &v = fib[cur].vc; bool acq = rd && mo != 0 && mo != 3, rel = wr && mo >= 3;
    if (acq) v.join(a.sync);
    if (rd) a.r[cur] = v.c[cur];
    if (wr) a.w[cur] = v.c[cur];
    if (rel) { a.sync.join(v); v.c[cur]++; }
}
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, false, PC); } void __tsan_read_write##n(void *p) { acc(p, n, false, false, PC); acc(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, false, false, PC); acc(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true, false, PC); }
void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_init() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, false, false, PC); acc(d, n, true, false, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, false, false, PC); acc(d, n, true, false, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, true, false, PC); return memset(d, c, n); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int mo) { atomic_op((void *) p, b / 8, true, false, mo, PC); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, false, true, mo, PC); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; *p = (T)(o ^ v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_op((void *) p, b / 8, true, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomic_op((void *) p, b / 8, true, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { atomic_op((void *) p, b / 8, true, true, mo, PC); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// string functions of the C library, on library memory
int __real_strcmp(const char *, const char *); int __real_memcmp(const void *, const void *, size_t); size_t __real_strlen(const char *); size_t __real_strnlen(const char *, size_t);
static void str(const char *s, size_t max, void *pc) { if (!in(s)) return; size_t n = 0; while (n < max) { acc(s + n, 1, false, false, pc); if (!s[n]) break; n++; } }
int __wrap_strcmp(const char *a, const char *b) { str(a, ~0ull, PC); str(b, ~0ull, PC); return __real_strcmp(a, b); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { acc(a, n, false, false, PC); acc(b, n, false, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *a) { str(a, ~0ull, PC); return __real_strlen(a); }
size_t __wrap_strnlen(const char *a, size_t n) { str(a, n, PC); return __real_strnlen(a, n); }
}
