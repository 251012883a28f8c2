// Images, section caches and files next to a small reference model of what each address must read as.
#pragma once
#include "decode.h"
#include <algorithm>
#include <functional>
#include <array>
#define X(v) ((unsigned long long)(v))

struct MSec { std::string file; u64 off, size; InodeP ino; std::vector<u8> data; u64 mtime, fsize; };   // a section as it was created
typedef std::shared_ptr<MSec> MSecP;
struct Ent { u64 cr3, vmcs, begin, size, soff; int isid; MSecP s; u8 at(u64 a) const { return s->data[(size_t)(s->off + soff + (a - begin))]; } };
struct MImg { std::vector<Ent> e; bool cb = false; };
struct CEnt { MSecP s; u64 vaddr; };
static const u64 NOCR3 = ~0ull, NOVM = ~0ull;

struct World {
    static constexpr u64 arena = 0x400000, alen = 0x180;
    std::vector<pt_image *> img; std::vector<MImg> mod; pt_image_section_cache *isc = nullptr; std::vector<CEnt> cent; u32 ver = 0; u64 mtime = 1000000, mlo = 999999; u64 tick(); int nfiles;
    std::vector<u64> cr3s{NOCR3, 0x1000, 0x2000}, vms{NOVM, 0x5000};
    bool io_faults = false;            // reads may fail
    World(); ~World();
    void release();
    std::string fname(int i) const { return "/sim/f" + std::to_string(i); }
    void write_file(int i, u64 size); void gen_files();
    static bool match(u64 c1, u64 v1, u64 c2, u64 v2) { return (c1 == c2 || c1 == NOCR3 || c2 == NOCR3) && (v1 == v2 || v1 == NOVM || v2 == NOVM); }
    static void carve(MImg &m, const Ent &n);
    static void add(MImg &m, const Ent &n) { carve(m, n); m.e.push_back(n); }
    struct Got { u8 byte; int isid; };
    int probe(int i, u64 cr3, u64 vm, u64 addr, size_t max, std::vector<Got> &g);
    bool changed(const MSec &s) const; bool mapped(const MSec &s) const;
    void check(int i, u64 cr3, u64 vm, u64 from, u64 to, const char *when);
    void check_all(const char *when); void check_some(const char *when); void check_cache(const char *when);
    bool same(int i, const MImg &m, std::string *why = nullptr);        // does the image read like the model?
    pt_asid asid(u64 c, u64 v) const { pt_asid a; pt_asid_init(&a); a.cr3 = c; a.vmcs = v; return a; }
    struct Op { int k; int i, j; int file; u64 off, size, vaddr, cr3, vm; int isid; bool bad; bool noasid; };
    Op gen(); int run(const Op &o); bool model(const Op &o, int r); std::string str(const Op &o) const; int expect(const Op &o);   // 0 ok, <0 any error expected
    MSecP mksec(int f, u64 off, u64 size);
};
int probe_image(pt_image *img, u64 cr3, u64 vm, u64 addr, size_t max, std::vector<World::Got> &g, bool io_faults);       // read code through a decoder
