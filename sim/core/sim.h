// Deterministic simulation core: choice tape, event log hash, violations, statistics, step budget.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <csetjmp>
#include <map>
#include <string>
#include <vector>
#include <unordered_set>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t s64; typedef int32_t s32;

static inline u64 mix64(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }

struct Violation { std::string cls, msg; };

struct Sim {
    // ---- choices.  One PRNG (or one recorded tape) decides everything.
    bool replay = false;
    u64 rs[2];
    std::vector<u32> in;              // replay input
    size_t inpos = 0;
    struct TapeHdr { u32 magic, state; u64 len, hash, index; char cls[64]; char msg[400]; u32 data[]; };
    TapeHdr *tape = nullptr; size_t tapecap = 0;
    u32 raw();
    void seed(u64 s);
    u32 d(u32 n) {                    // uniform in [0,n); 0 is the simplest choice
        if (n <= 1) return 0;
        u32 v = raw(); v = replay ? v % n : (u32)(((u64) v * n) >> 32);
        record(v); return v;
    }
    void record(u32 v);
    u32 range(u32 lo, u32 hi) { return lo + d(hi - lo + 1); }      // inclusive
    bool p(u32 num, u32 den) { return d(den) >= den - num; }         // false is simplest
    u64 d64() { u64 hi = d(0x10000); hi = hi << 16 | d(0x10000); hi = hi << 16 | d(0x10000); return hi << 16 | d(0x10000); }
    u64 dbits(u32 bits) { u64 v = d64(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[d((u32) v.size())]; }
    u32 weighted(std::initializer_list<u32> w) { u32 t = 0; for (u32 x : w) t += x; u32 r = d(t), i = 0; for (u32 x : w) { if (r < x) return i; r -= x; i++; } return 0; }

    // ---- log: a rolling hash of everything observable, text only when verbose
    bool verbose = false; FILE *vout = nullptr;
    u64 hash = 0;
    void h(u64 v) { hash = mix64(hash * 0x9e3779b97f4a7c15ull + v + 1); if (tape) tape->hash = hash; }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    // ---- verdicts
    int catching = 0; Violation viol; sigjmp_buf *jb = nullptr; void (*escape)() = nullptr;     // escape: leave the simulated thread
    [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));

    // ---- statistics
    std::map<std::string, u64> stat;
    void count(const char *k, u64 n = 1) { stat[k] += n; }
    bool nontrivial = false;          // set by the scenario when the run exercised what it is about
    u64 simtime = 0;                  // simulated time covered (ticks)

    // ---- step budget: instrumented edges executed inside the library
    u64 steps = 0, budget = 0;        // budget 0: unlimited
    const char *budget_what = "";
    struct Budget { Sim &s; u64 old; const char *ow; bool on; Budget(Sim &s_, u64 n, const char *what, bool on = true);
        ~Budget(); };
};
extern Sim sim;
#define LOG(...) do { if (sim.verbose) sim.log(__VA_ARGS__); } while (0)

struct Scenario { const char *name; void (*fn)(); const char *desc; };
extern std::vector<Scenario> &scenarios();
struct RegScenario { RegScenario(const char *n, void (*f)(), const char *d) { scenarios().push_back({n, f, d}); } };
#define SCENARIO(id, fn, desc) static RegScenario reg_##fn(id, fn, desc)

int sim_main(int argc, char **argv);
std::string hexs(const u8 *p, size_t n);
