// The operating system the library sees: heap, files, mappings, mutexes.  All simulated or accounted for, with faults.
#pragma once
#include "sim.h"
#include <memory>
#include <set>

enum Fault { F_ALLOC, F_OPEN, F_FDOPEN, F_STAT, F_FSTAT, F_MMAP, F_READ_ERR, F_READ_EOF, F_SEEK, F_MTXINIT, F_NFAULTS };
extern const char *fault_name[F_NFAULTS];

struct Inode { std::vector<u8> data; u64 mtime = 1000; u64 ino; };
typedef std::shared_ptr<Inode> InodeP;

struct Seam {
    // faults: enabled kinds fire after a drawn number of opportunities
    bool on[F_NFAULTS] = {}; u32 rate[F_NFAULTS] = {}; s64 left[F_NFAULTS] = {};
    int lib = 0;                       // >0 while a library call is on the stack
    u64 fired = 0;                     // faults fired in this run
    u64 fired_kind[F_NFAULTS] = {};
    void enable(Fault f, u32 rate);    // roughly every rate-th opportunity fails
    void arm_at(Fault f, u64 nth);     // exactly the nth (1..) opportunity from now on fails, once
    void disable_all();
    bool fire(Fault f);
    u64 opportunities[F_NFAULTS] = {};

    // heap
    struct Blk { size_t size; u64 seq; };
    std::map<void *, Blk> live; u64 nalloc = 0; u64 bytes = 0;

    // files
    std::map<std::string, InodeP> files; u64 next_ino = 1;
    struct Fd { InodeP ino; u64 pos = 0; bool file = false, cut = false; };
    std::map<int, Fd> fds; int next_fd = 1 << 20;
    struct Map { InodeP ino; u64 off, len; };
    std::map<void *, Map> maps; u64 mapped = 0;
    u64 nopen = 0, nmmap = 0, nmunmap = 0, nread = 0;
    std::set<void *> streams;
    InodeP put(const std::string &path, const std::vector<u8> &data, u64 mtime = 1000);   // create or replace
    void overwrite(const std::string &path, u64 off, const std::vector<u8> &d, u64 mtime);
    void unlink(const std::string &path) { files.erase(path); }

    // mutexes
    struct Mtx { int owner = -1; u64 waiters = 0; };
    std::map<void *, Mtx> mtx; int held = 0;

    void reset();                      // start of a run
    void check_released(const char *where);   // nothing of the library's may be left
    void check_unlocked(const char *what);
};
extern Seam seam;

// Scheduler hooks; null when the run is single-threaded.
struct SchedHooks { int (*self)(); void (*yield)(const char *); bool (*block)(void *m); void (*wake)(void *m); void (*acquire)(void *m); void (*release)(void *m); };
extern SchedHooks *sched_hooks;

// Bracket for every library call: arms faults, sets the step budget, checks locks afterwards.
struct Lib {
    Sim::Budget b; const char *what;       // simulated threads share one budget, set when they start
    Lib(const char *w, u64 steps = 50000000) : b(sim, steps, w, !sched_hooks), what(w) { seam.lib++; }
    ~Lib() { seam.lib--; }
};
template<class F> static inline auto lib_call(const char *what, F f, u64 steps = 50000000) -> decltype(f())
{
    struct G { G() {} ~G() {} };
    Lib l(what, steps);
    if constexpr (std::is_void<decltype(f())>::value) { f(); seam.check_unlocked(what); return; }
    else { auto r = f(); seam.check_unlocked(what); return r; }
}
#define LIB(call) lib_call(#call, [&]() { return call; })
