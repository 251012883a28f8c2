// Processes, processors and their sideband records, next to the images a decoder must be given.
#pragma once
#include "image_world.h"
#include "perf.h"

typedef std::shared_ptr<const MImg> MImgP;
struct SbNote { int err; std::string file; u64 off; };
struct SbStream {
    int cpu = 0; bool primary = false, notime = false; PCfg cfg; s64 skew = 0; u64 offset = 0; std::vector<PRec> recs; std::vector<u64> at; std::vector<int> loud; std::vector<u8> bytes; std::string file; size_t begin = 0, end = 0; std::unique_ptr<PevCfg> keep;
};
struct SbOs {                          // the operating system being traced
    static constexpr u64 user = 0x10000, ulen = 0x1000, kern = 0x7f0000000000ull, klen = 0x200, kimg = 0x400000000000ull;
    struct Proc { u32 pid; MImg mm; int abi = 0; u32 threads = 1; };
    std::map<u32, Proc> procs; std::vector<u32> run; std::vector<u32> dead; u32 nextpid = 100; MImg kernel; u32 ver = 0; int nfiles = 0; std::string root; std::vector<bool> elf; std::string vdso[4];
    std::vector<SbStream> st; u64 t = 0, step = 1, delta = 0, q = 0; size_t stat_exec = 0; u32 announced = 0; bool known = false; bool wide = false, mmap2 = true;
    std::vector<u8> opbytes(size_t n); void put(const std::string &f, std::vector<u8> d); void files(); std::string path(const std::string &n) const { return root + n; }
    void streams(); u64 tick() { return t += step + sim.d((u32) step * 2 + 2); }
    PRec &rec(int s, u32 type, u16 misc, std::vector<u8> body, const std::string &str = "", bool synth = false);
    void map(int s, u32 pid, bool synth, bool exec = false); void populate(int s, u32 pid, bool synth);
    std::function<void()> between; void action(int c); void sched(int c, u32 to); bool running(u32 pid, int but) const { for (size_t k = 0; k < run.size(); k++) if ((int) k != but && run[k] == pid) return true; return false; }
    bool secondary(int c) const { for (auto &s : st) if (s.cpu == c) return s.primary == false; return true; }
    int stream(int c) { for (size_t k = 0; k < st.size(); k++) if (st[k].cpu == c) return (int) k; return 0; }
    void finish(); u64 eff(const SbStream &s, const PRec &r) const;
};
struct SbSess {                        // the sideband library's session under test
    pt_sb_session *s = nullptr; pt_image_section_cache *isc = nullptr; std::vector<SbNote> notes; int answer = 0; u64 switches = 0; const pt_sb_context *last = nullptr;
    bool open(bool notify = true); int add(SbOs &os, SbStream &st); ~SbSess(); void close();
};
void le_put(std::vector<u8> &b, u64 v, int n);
void read_image(pt_image *img, const MImg &m, u64 from, u64 to, const char *when, bool (*skip)(u64) = nullptr);
void sample_image(pt_image *img, const MImg &m, bool all, const char *when);
