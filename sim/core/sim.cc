#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>

Sim sim;
std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }

void Sim::seed(u64 s) { rs[0] = mix64(s + 0x9e3779b97f4a7c15ull); rs[1] = mix64(s + 2 * 0x9e3779b97f4a7c15ull); }
u32 Sim::raw()
{
    if (replay) return inpos < in.size() ? in[inpos++] : (inpos++, 0);
    u64 a = rs[0], b = rs[1], r = a + b;       // xoroshiro128+
    b ^= a; rs[0] = (a << 24 | a >> 40) ^ b ^ (b << 16); rs[1] = b << 37 | b >> 27;
    return (u32)(r >> 32);
}
void Sim::record(u32 v)
{
    if (tape) {
        if (tape->len < tapecap) tape->data[tape->len] = v;
        tape->len++;
    }
}
void Sim::log(const char *fmt, ...)
{
    if (!verbose) return;
    va_list ap; va_start(ap, fmt); vfprintf(vout ? vout : stdout, fmt, ap); va_end(ap); fputc('\n', vout ? vout : stdout); fflush(vout ? vout : stdout);
}
void Sim::fail(const char *cls, const char *fmt, ...)
{
    budget = 0;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (catching) throw Violation{cls, b};
    viol = {cls, b};                    // straight out: destructors must not run library code once something is broken
    if (escape) escape();
    siglongjmp(*jb, 1);
}
Sim::Budget::Budget(Sim &s_, u64 n, const char *what, bool on_) : s(s_), old(s_.budget), ow(s_.budget_what), on(on_) { if (on) { s.budget = s.steps + n; s.budget_what = what; } }
Sim::Budget::~Budget() { if (on) { s.budget = old; s.budget_what = ow; } }

// ---- coverage callbacks: edges and the step budget
static u32 nguards; static u8 covmap[1 << 20];
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop)
{
    if (start == stop || *start) return;
    for (u32 *p = start; p < stop; p++) *p = ++nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32 *g)
{
    covmap[*g] = 1;
    sim.steps++;
    if (sim.budget && sim.steps > sim.budget)
        sim.fail("no-progress", "%s: call does not return within its step budget", sim.budget_what);
}

std::string hexs(const u8 *p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void tape_open(const char *path)
{
    sim.tapecap = 1u << 20;
    size_t sz = sizeof(Sim::TapeHdr) + sim.tapecap * 4;
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sz)) { perror(path); exit(3); }
    sim.tape = (Sim::TapeHdr *) mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (sim.tape == MAP_FAILED) exit(3);
    close(fd); sim.tape->magic = 0x53494d54;
}

static bool one(Scenario &sc, Violation &v)
{
    sim.hash = 0; sim.nontrivial = false; sim.inpos = 0; sim.budget = 0; sim.steps = 0;
    if (sim.tape) { sim.tape->len = 0; sim.tape->hash = 0; sim.tape->cls[0] = 0; sim.tape->state = 1; }
    sigjmp_buf jb; sim.jb = &jb; sim.catching = 0;
    if (!sigsetjmp(jb, 0)) sc.fn();
    else {
        v = sim.viol; sim.budget = 0; sim.escape = nullptr;
        if (sim.tape) { snprintf(sim.tape->cls, sizeof sim.tape->cls, "%s", v.cls.c_str()); snprintf(sim.tape->msg, sizeof sim.tape->msg, "%s", v.msg.c_str()); sim.tape->state = 3; }
        return false;
    }
    if (sim.tape) sim.tape->state = 2;
    return true;
}

static void jstr(FILE *f, const std::string &s) { fputc('"', f); for (char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if ((u8) c < 32) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int sim_main(int argc, char **argv)
{
    // Fixed addresses: pointer values never differ between two executions of one seed.
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string cmd = argc > 1 ? argv[1] : "", prop, stats, tape, cov, hashes; u64 seed = 1, start = 0, stride = 1, n = 1, only = ~0ull; double deadline = 1e9; std::vector<std::string> known;
    bool hashlog = false; u64 hashn = 0;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 0);
        else if (a == "--start") start = strtoull(val().c_str(), 0, 0); else if (a == "--stride") stride = strtoull(val().c_str(), 0, 0);
        else if (a == "--count") n = strtoull(val().c_str(), 0, 0); else if (a == "--deadline") deadline = atof(val().c_str());
        else if (a == "--stats") stats = val(); else if (a == "--tape") tape = val(); else if (a == "-v") sim.verbose = true;
        else if (a == "--only") only = strtoull(val().c_str(), 0, 0);
        else if (a == "--known") known.push_back(val()); else if (a == "--hashlog") hashlog = true; else if (a == "--hashn") hashn = strtoull(val().c_str(), 0, 0);
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (cmd == "list") { for (auto &s : scenarios()) printf("%s %s\n", s.name, s.desc); return 0; }
    Scenario *sc = nullptr; for (auto &s : scenarios()) if (prop == s.name) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 2; }

    if (cmd == "replay") {
        // tape file -> run once.  Prints one RESULT line.
        FILE *f = fopen(tape.c_str(), "rb"); if (!f) { perror(tape.c_str()); return 2; }
        u32 v; while (fread(&v, 4, 1, f) == 1) sim.in.push_back(v);
        fclose(f); sim.replay = true;
        std::string live = tape + ".live"; tape_open(live.c_str()); unlink(live.c_str());
        Violation x; bool ok = one(*sc, x);
        if (ok) printf("RESULT ok hash=%016llx used=%llu\n", (unsigned long long) sim.hash, (unsigned long long) sim.tape->len);
        else printf("RESULT violation class=%s hash=%016llx used=%llu msg=%s\n", x.cls.c_str(), (unsigned long long) sim.hash, (unsigned long long) sim.tape->len, x.msg.c_str());
        fflush(stdout); _exit(ok ? 0 : 10);
    }
    if (cmd != "run") { fprintf(stderr, "usage: list|run|replay\n"); return 2; }
    if (!tape.empty()) tape_open(tape.c_str());
    double t0 = now(), last = t0; u64 runs = 0, nontriv = 0, knownhits = 0; std::unordered_set<u64> distinct; std::map<std::string, u64> kc; int rc = 0; u64 idx = start, totsteps = 0;
    for (u64 k = 0; k < n; k++, idx += stride) {
        if (only != ~0ull) idx = only;
        if (k && now() - t0 > deadline) break;
        if (sim.tape) sim.tape->index = idx;
        u64 ps = 0; for (char c : prop) ps = ps * 131 + (u8) c;
        sim.seed(mix64(seed * 0x100000001b3ull + ps) + idx * 0x9e3779b97f4a7c15ull);
        Violation v; bool ok = one(*sc, v); runs++; totsteps += sim.steps;
        if (hashlog || k < hashn) printf("H %llu %016llx %llu %s\n", (unsigned long long) idx, (unsigned long long) sim.hash, (unsigned long long)(sim.tape ? sim.tape->len : 0), ok ? "" : v.cls.c_str());
        if (!ok) {
            bool isk = false; for (auto &kk : known) if ((v.cls + ": " + v.msg).find(kk) != std::string::npos) { isk = true; kc[kk]++; knownhits++; }
            if (!isk) { printf("VIOLATION-RUN index=%llu class=%s hash=%016llx msg=%s\n", (unsigned long long) idx, v.cls.c_str(), (unsigned long long) sim.hash, v.msg.c_str()); rc = 10; break; }
        } else { if (sim.nontrivial) { nontriv++; if (distinct.size() < 4000000) distinct.insert(sim.hash); } }
        if (only != ~0ull) break;
    }
    (void) last;
    if (!stats.empty()) {
        FILE *f = fopen(stats.c_str(), "w"); if (!f) return 3;
        u64 edges = 0; for (u32 i = 1; i <= nguards; i++) edges += covmap[i];
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"known\":%llu,\"wall\":%.3f,\"simtime\":%llu,\"edges_hit\":%llu,\"edges_total\":%u,\"steps\":%llu,\"stat\":{", (unsigned long long) runs, (unsigned long long) nontriv, (unsigned long long) knownhits, now() - t0, (unsigned long long) sim.simtime, (unsigned long long) edges, nguards, (unsigned long long) totsteps);
        bool first = true; for (auto &kv : sim.stat) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long) kv.second); }
        fprintf(f, "},\"knownhits\":{"); first = true; for (auto &kv : kc) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long) kv.second); }
        fprintf(f, "}}\n"); fclose(f);
        f = fopen((stats + ".bin").c_str(), "wb"); if (!f) return 3;
        u64 nd = distinct.size(), ng = nguards; fwrite(&nd, 8, 1, f); for (u64 x : distinct) fwrite(&x, 8, 1, f);
        fwrite(&ng, 8, 1, f); if (ng) fwrite(covmap + 1, 1, ng, f); fclose(f);
    }
    fflush(stdout); _exit(rc);
}
