// C18-C21: threads sharing sections and section caches.
#ifdef SIM_THR
#include "decode.h"
#include "fibers.h"
#include <algorithm>
#include <memory>
#include <set>
#define X(v) ((unsigned long long)(v))
extern "C" {
int pt_image_read(struct pt_image *image, int *isid, uint8_t *buffer, uint16_t size, const struct pt_asid *asid, uint64_t addr);
}

struct SecKey { int file; u64 off, size, va; bool operator<(const SecKey &o) const { return std::tie(file, off, size, va) < std::tie(o.file, o.off, o.size, o.va); } bool operator==(const SecKey &o) const { return !(*this < o) && !(o < *this); } };
struct HOp { int kind, th; SecKey k; int isid; u64 va, n; u64 inv = 0, ret = 0; int res = 0; std::vector<u8> got; bool fault = false; };
enum { H_ADD, H_READ, H_IMG, H_LIMIT, H_IADD, H_IREAD, H_IDEL };
struct Hist {
    std::vector<std::vector<u8>> files; std::vector<HOp> h; struct St { std::map<int, SecKey> c; std::map<int, std::pair<int, SecKey>> im; bool operator<(const St &o) const { return std::tie(c, im) < std::tie(o.c, o.im); } }; std::set<std::pair<u64, St>> seen; u64 nodes = 0;
    bool content(const HOp &o, const SecKey &k, u64 va) const
    {
        if (va < k.va || va >= k.va + k.size) return o.res < 0;
        u64 n = std::min(o.n, k.va + k.size - va); return o.res == (int) n && !memcmp(o.got.data(), files[k.file].data() + k.off + (va - k.va), n);
    }
    bool apply(const HOp &o, St &st) const
    {
        auto &s = st.c;
        switch (o.kind) {
        case H_ADD: {
            if (o.res < 0 && o.fault) return true;
            SecKey k = o.k; u64 fs = files[k.file].size(); if (k.off >= fs) return o.res < 0;
            k.size = std::min(k.size, fs - k.off); for (auto &e : s) if (e.second == k) return o.res == e.first;
            if (o.res <= 0 || s.count(o.res)) return false;
            s[o.res] = k; return true; }
        case H_READ: case H_IMG: {
            if (o.res < 0 && o.fault) return true;
            auto e = s.find(o.isid); if (e == s.end()) return o.res < 0;
            return content(o, e->second, o.kind == H_IMG ? e->second.va + o.va : o.va); }
        case H_IADD: {
            if (o.res < 0 && o.fault) return true;
            auto e = s.find(o.isid); if (e == s.end()) return o.res < 0;
            if (o.res) return false; st.im[o.th] = *e; return true; }
        case H_IREAD: { if (o.res < 0 && o.fault) return true; auto e = st.im.find(o.th); if (e == st.im.end()) return o.res < 0; return content(o, e->second.second, o.va); }
        case H_IDEL: { if (o.res < 0 && o.fault) return true; u32 n = (u32) st.im.erase(o.th); return o.res == (int) n; }
        case H_LIMIT: return o.res == 0 || (o.fault && o.res < 0);
        }
        return false;
    }
    bool lin(u64 done, const St &s)
    {
        if (done == (1ull << h.size()) - 1) return true;
        if (++nodes > 200000) { sim.count("linearization-search-bounded"); return true; }
        if (!seen.insert({done, s}).second) return false;
        u64 mr = ~0ull; for (size_t k = 0; k < h.size(); k++) if (!(done >> k & 1)) mr = std::min(mr, h[k].ret);
        for (size_t k = 0; k < h.size(); k++) if (!(done >> k & 1) && h[k].inv <= mr) { St t = s; if (apply(h[k], t) && lin(done | 1ull << k, t)) return true; }
        return false;
    }
    std::string str(const HOp &o) const { char b[200]; static const char *n[] = {"add", "read", "image", "limit", "image-add", "image-read", "image-remove"}; if (o.kind == H_ADD) snprintf(b, sizeof b, "%d:add(f%d+%llx size %llx at %llx)=%d", o.th, o.k.file, X(o.k.off), X(o.k.size), X(o.k.va), o.res); else snprintf(b, sizeof b, "%d:%s(%d, %llx, %llu)=%d", o.th, n[o.kind], o.isid, X(o.va), X(o.n), o.res); return b; }
};

struct Cacher {
    Hist hist; pt_image_section_cache *isc = nullptr; u64 limit = ~0ull; bool faults = false; std::vector<pt_image *> imgs; std::vector<u64> limits; bool has[8] = {}; std::vector<HOp> extra;
   
    void files() { for (int f = 0; f < 3; f++) { std::vector<u8> d(sim.d(4) ? 16 + sim.d(100) : 4000 + sim.d(1000)); for (auto &b : d) b = (u8) sim.d(256); hist.files.push_back(d); seam.put("/sim/f" + std::to_string(f), d); } }
    u64 newlimit() { static const u64 l[] = {0, 50, 120, 4000, 9000, ~0ull}; return l[sim.d(6)]; }
    HOp gen(int th)
    {
        HOp o; o.th = th; o.kind = (int) sim.weighted({5, 5, 2, 2, 3, 4, 1}); o.isid = 1 + (int) sim.d(4); if (sim.p(1, 20)) o.isid = (int) sim.d(2) ? 0 : 77;
        static const u64 offs[] = {0, 8, 24, 3000, 5000}, sizes[] = {8, 40, 100, 0x1000, 0x100000}, vas[] = {0x1000, 0x1008, 0x400000};
        o.k = {(int) sim.d(3), offs[sim.weighted({4, 3, 1, 1, 1})], sizes[sim.weighted({1, 2, 2, 1, 1})], vas[sim.d(3)]}; o.va = vas[sim.d(3)] + sim.d(16); o.n = 1 + sim.d(40); if (o.kind == H_IMG) o.va = sim.d(8); if (o.kind == H_LIMIT) o.va = newlimit(); return o;
    }
    void run(HOp &o, pt_image *im)
    {
        u64 f0 = seam.fired; o.inv = par_now(); LOG("  %d: starts %s", par_self(), hist.str(o).c_str());
        switch (o.kind) {
        case H_ADD: { std::string fn = "/sim/f" + std::to_string(o.k.file); o.res = LIB(pt_iscache_add_file(isc, fn.c_str(), o.k.off, o.k.size, o.k.va)); } break;
        case H_READ: o.got.resize(o.n); o.res = LIB(pt_iscache_read(isc, o.got.data(), o.n, o.isid, o.va)); break;
        case H_IMG: {
            pt_image *t = LIB(pt_image_alloc("t")); if (!t) { o.res = -pte_nomem; break; }
            o.res = LIB(pt_image_add_cached(t, isc, o.isid, nullptr)); if (o.res < 0) { LIB(pt_image_free(t)); break; }
            // whatever the identifier meant: find it again at the start address the image gave it
            static const u64 vas[] = {0x1000, 0x1008, 0x400000}; o.got.resize(o.n); pt_asid a; pt_asid_init(&a); int r = -pte_nomap, id = 0;
            for (u64 v : vas) { u8 b[1]; int q = LIB(pt_image_read(t, &id, b, 1, &a, v)); if (q == 1 && id == o.isid) { r = LIB(pt_image_read(t, &id, o.got.data(), (u16) o.n, &a, v + o.va)); break; } if (q < 0 && q != -pte_nomap) { r = q; break; } }
            o.res = r; int q = LIB(pt_image_remove_by_filename(t, "/sim/f0", nullptr)) + LIB(pt_image_remove_by_filename(t, "/sim/f1", nullptr)) + LIB(pt_image_remove_by_filename(t, "/sim/f2", nullptr)); if (q != 1 && !(faults && q < 3)) sim.fail("image-content", "removing the one section of an image removes %d", q); LIB(pt_image_free(t)); } break;
        case H_IADD: if (has[o.th]) { LIB(pt_image_remove_by_asid(im, nullptr)); HOp d; d.th = o.th; d.kind = H_IDEL; d.isid = 0; d.va = d.n = 0; d.res = 1; d.k = o.k; d.inv = o.inv; d.ret = o.inv = par_now(); extra.push_back(d); has[o.th] = false; }
            o.res = LIB(pt_image_add_cached(im, isc, o.isid, nullptr)); if (o.res == 0) has[o.th] = true; break;
        case H_IREAD: { int id = 0; pt_asid a; pt_asid_init(&a); o.got.resize(o.n); o.res = LIB(pt_image_read(im, &id, o.got.data(), (u16) o.n, &a, o.va)); } break;
        case H_IDEL: o.res = LIB(pt_image_remove_by_asid(im, nullptr)); has[o.th] = false; break;
        case H_LIMIT: o.res = LIB(pt_iscache_set_limit(isc, o.va)); limits.push_back(o.va); break;
        }
        o.ret = par_now(); o.fault = faults && seam.fired != f0; sim.h(0xc18000 + o.kind); sim.h((u64)(s64) o.res); LOG("  %d: %s", par_self(), hist.str(o).c_str());
    }
    void go(int maxth, int maxops)
    {
        if (faults && sim.p(1, 8)) { if (sim.d(2)) seam.arm_at(F_MTXINIT, 1); else seam.arm_at(F_ALLOC, 1 + sim.d(2)); isc = LIB(pt_iscache_alloc("c")); bool hit = seam.fired; if (isc && hit) sim.fail("fault-ignored", "pt_iscache_alloc succeeds although a call it needs failed"); if (!isc && !hit) sim.fail("setup", "pt_iscache_alloc"); seam.disable_all(); seam.check_released("after a failing pt_iscache_alloc"); }
        if (!isc) isc = LIB(pt_iscache_alloc("c"));
        if (!isc) sim.fail("setup", "pt_iscache_alloc"); files();
        if (sim.p(2, 3)) { limit = newlimit(); LIB(pt_iscache_set_limit(isc, limit)); limits.push_back(limit); }
        int nt = (int) sim.range(2, maxth); std::vector<std::vector<HOp>> ops(nt); for (int t = 0; t < nt; t++) { int n = (int) sim.range(1, maxops); for (int k = 0; k < n; k++) ops[t].push_back(gen(t + 1)); pt_image *i = LIB(pt_image_alloc("i")); if (!i) sim.fail("setup", "pt_image_alloc"); imgs.push_back(i); }
        for (int n = (int) sim.d(3); n > 0; n--) { HOp o = gen(0); o.kind = H_ADD; run(o, nullptr); hist.h.push_back(o); }
        if (faults) { static const Fault fk[] = {F_ALLOC, F_OPEN, F_STAT, F_FSTAT, F_MMAP, F_FDOPEN, F_MTXINIT, F_READ_ERR}; for (u32 n = sim.range(1, 2); n > 0; n--) { u32 k = sim.d(8); if (sim.d(2)) seam.enable(fk[k], 3 + sim.d(20)); else seam.arm_at(fk[k], 1 + sim.d(20)); } }
        if (sim.p(1, 4)) seam.enable(F_MMAP, 1);     // sections read from files instead of mapped
        std::vector<std::function<void()>> f; for (int t = 0; t < nt; t++) f.push_back([&, t]() { for (auto &o : ops[t]) run(o, imgs[t]); });
        par_run(f, 3000000); seam.disable_all();
        for (auto &v : ops) for (auto &o : v) hist.h.push_back(o);
        for (auto &o : extra) hist.h.push_back(o);
    }
    void check_lin()
    {
        for (auto &o : hist.h) if (o.inv == 0) sim.fail("no-return", "operation did not return");
        if (!hist.lin(0, {})) { std::vector<const HOp *> v; for (auto &o : hist.h) v.push_back(&o); std::sort(v.begin(), v.end(), [](const HOp *a, const HOp *b) { return a->inv < b->inv; }); std::string s; for (auto o : v) s += hist.str(*o) + "@" + std::to_string(o->inv) + "-" + std::to_string(o->ret) + " "; sim.fail("not-linearizable", "no sequential order explains %s", s.substr(0, 800).c_str()); }
    }
    void check_mapped(u64 lim, const char *when) { if (seam.mapped > lim) sim.fail("cache-limit", "%s: %llu bytes of unused sections kept mapped with a limit of %llu", when, X(seam.mapped), X(lim)); }
    void release(bool par)
    {
        if (par) { std::vector<std::function<void()>> f; for (auto i : imgs) {
            // an image outlives the cache: what it reads before and while the cache goes away is the same
            struct R { u64 va; u16 n; int r, id; std::vector<u8> b; }; std::vector<R> rd; static const u64 vas[] = {0x1000, 0x1008, 0x400000}; pt_asid a; pt_asid_init(&a);
            for (u32 k = sim.d(3); k > 0; k--) { R r; r.va = vas[sim.d(3)] + sim.d(8); r.n = (u16)(1 + sim.d(16)); r.id = 0; r.b.resize(r.n); r.r = LIB(pt_image_read(i, &r.id, r.b.data(), r.n, &a, r.va)); rd.push_back(r); }
            f.push_back([i, rd, a]() { for (auto &r : rd) { std::vector<u8> b(r.n); int id = 0, q = LIB(pt_image_read(i, &id, b.data(), r.n, &a, r.va)); if (q != r.r || id != r.id || b != r.b) sim.fail("image-content", "reading %u bytes at %llx from an image gives %d (%d) and, while its cache is freed, %d (%d) or other bytes", r.n, X(r.va), r.r, r.id, q, id); } LIB(pt_image_free(i)); });
        } auto c = isc; f.push_back([c]() { LIB(pt_iscache_free(c)); }); while (f.size() > 4) { auto x = f.back(), y = f[f.size() - 2]; f.pop_back(); f.back() = [x, y]() { x(); y(); }; } par_run(f, 3000000); }
        else { std::vector<int> o; for (size_t k = 0; k <= imgs.size(); k++) o.push_back((int) k); while (!o.empty()) { size_t k = sim.d((u32) o.size()); if (o[k] == (int) imgs.size()) { LIB(pt_iscache_free(isc)); } else LIB(pt_image_free(imgs[o[k]])); o.erase(o.begin() + k); } }
        imgs.clear(); isc = nullptr; seam.check_released("after freeing everything");
    }
};
static u64 held_bytes() { u64 n = seam.mapped; for (auto &b : seam.live) n += b.second.size; return n; }
// At rest, with a limit in force: what goes away when the limit drops to zero is what the cache kept.
static void check_limit(pt_image_section_cache *isc, u64 lim, const char *when)
{
    u64 a = held_bytes(), n = seam.live.size(); int r = LIB(pt_iscache_set_limit(isc, 0)); if (r < 0) sim.fail("limit", "pt_iscache_set_limit: %s", errname(r));
    u64 b = held_bytes(), k = n - seam.live.size(); if (seam.mapped) sim.fail("cache-limit", "%s: %llu bytes still mapped with a limit of zero", when, X(seam.mapped));
    if (a - b > lim + 160 * k && lim + 160 * k > lim) sim.fail("cache-limit", "%s: the cache kept %llu bytes in %llu blocks with a limit of %llu", when, X(a - b), X(k), X(lim));
}
static void c18()
{
    seam.reset(); Cacher c; c.go(4, 4); c.check_lin(); sim.nontrivial = true; c.release(false);
}
SCENARIO("C18", c18, "section cache operations by several threads");
static void c19()
{
    seam.reset(); Cacher c; c.go(4, 4);
    // Nobody uses a section now: what is mapped is what the cache keeps.
    u64 lim = 0; for (u64 l : c.limits) lim = std::max(lim, l); if (c.limits.empty()) lim = ~0ull;
    c.check_mapped(lim, "at rest"); u64 n = c.newlimit(); int r = LIB(pt_iscache_set_limit(c.isc, n)); if (r < 0) sim.fail("limit", "pt_iscache_set_limit: %s", errname(r)); c.check_mapped(n, "after lowering the limit");
    if (sim.d(2)) { HOp o = c.gen(0); o.kind = H_READ; c.run(o, nullptr); c.check_mapped(n, "after a read"); }
    if (sim.d(2)) { for (auto i : c.imgs) LIB(pt_image_remove_by_asid(i, nullptr)); if (sim.d(2)) check_limit(c.isc, n, "at rest"); }
    sim.nontrivial = seam.nmmap > 0; c.release(sim.d(2));
}
SCENARIO("C19", c19, "the section cache's limit, and release in any order from any thread");
// Decoders in parallel while calls below them fail.
static void faulty_decode()
{
    { Machine m; m.gen_feat(); m.f.nsteps = std::min<u32>(m.f.nsteps, 40); m.gen_program(); m.run();
      Code base(m); base.o.callback = base.o.overlay = false; base.files(); base.isc = LIB(pt_iscache_alloc("shared")); if (!base.isc) sim.fail("setup", "pt_iscache_alloc");
      if (sim.d(2)) { static const u64 l[] = {0, 200, 1000, 5000}; LIB(pt_iscache_set_limit(base.isc, l[sim.d(4)])); }
      int nt = (int) sim.range(2, 3); std::vector<std::unique_ptr<Code>> codes; std::vector<std::function<void()>> f; std::vector<std::vector<u8>> bufs(nt);
      for (int t = 0; t < nt; t++) {
          codes.emplace_back(new Code(m)); Code &c = *codes.back(); c.o = base.o; c.o.split = false; c.isc = base.isc; c.img = LIB(pt_image_alloc("i")); if (!c.img) sim.fail("setup", "pt_image_alloc"); c.fill(c.img);
          pt_config cf = mkconfig(m, bufs[t], RunOpt()); bool blk = sim.p(3, 4);
          f.push_back([&c, cf, blk]() {
              int st = 0; u32 calls = 0, syncs = 0;
              if (blk) {
                  pt_block_decoder *d = LIB(pt_blk_alloc_decoder(&cf)); if (!d) return;
                  LIB(pt_blk_set_image(d, c.img)); pt_block b; pt_event e;
                  while (calls++ < 2000 && syncs < 20) { if (st < 0 || !syncs) { syncs++; st = LIB(pt_blk_sync_forward(d)); if (st < 0) break; } while (st >= 0 && st & pts_event_pending) st = LIB(pt_blk_event(d, &e, sizeof e)); if (st >= 0) { memset(&b, 0, sizeof b); st = LIB(pt_blk_next(d, &b, sizeof b)); } sim.h((u64)(s64) st); }
                  LIB(pt_blk_free_decoder(d));
              } else {
                  pt_insn_decoder *d = LIB(pt_insn_alloc_decoder(&cf)); if (!d) return;
                  LIB(pt_insn_set_image(d, c.img)); pt_insn b; pt_event e;
                  while (calls++ < 2000 && syncs < 20) { if (st < 0 || !syncs) { syncs++; st = LIB(pt_insn_sync_forward(d)); if (st < 0) break; } while (st >= 0 && st & pts_event_pending) st = LIB(pt_insn_event(d, &e, sizeof e)); if (st >= 0) { memset(&b, 0, sizeof b); st = LIB(pt_insn_next(d, &b, sizeof b)); } sim.h((u64)(s64) st); }
                  LIB(pt_insn_free_decoder(d));
              }
          });
      }
      static const Fault fk[] = {F_ALLOC, F_OPEN, F_FSTAT, F_MMAP, F_FDOPEN, F_READ_ERR, F_SEEK}; for (u32 n = sim.range(1, 3); n > 0; n--) { u32 k = sim.d(7); if (sim.d(2)) seam.enable(fk[k], 2 + sim.d(20)); else seam.arm_at(fk[k], 1 + sim.d(10)); }
      par_run(f, 30000000); seam.disable_all(); sim.nontrivial = seam.fired > 0;
      if (seam.held) sim.fail("lock-leak", "%d lock(s) held after all calls returned", seam.held);
      if (base.o.cached && sim.d(2)) { Code &c = *codes[0]; RunOpt o; check_block(m, c, o); }      // and everything still works
      for (auto &c : codes) c->isc = nullptr;
    }
    seam.check_released("end of run");
}
static void c20()
{
    seam.reset(); if (sim.p(1, 4)) { faulty_decode(); return; }
    Cacher c; c.faults = true; c.go(4, 3); sim.nontrivial = seam.fired > 0;
    // every lock is free again and everything still works
    if (seam.held) sim.fail("lock-leak", "%d lock(s) held after all calls returned", seam.held);
    for (int k = 0; k < 3; k++) { HOp o = c.gen(0); c.run(o, c.imgs[0]); }
    c.release(sim.d(2));
}
SCENARIO("C20", c20, "locks on every path, with failing calls");

static void parallel(bool lim)
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.nsteps = std::min<u32>(m.f.nsteps, 60); m.f.trig = false; m.gen_program(); m.run();
      Code base(m); base.o.callback = base.o.overlay = false; base.files(); base.isc = LIB(pt_iscache_alloc("shared")); if (!base.isc) sim.fail("setup", "pt_iscache_alloc"); base.img = nullptr;
      if (lim || sim.p(1, 2)) { static const u64 l[] = {0, 200, 1000, 5000}; LIB(pt_iscache_set_limit(base.isc, lim ? (u64) sim.d(1 << sim.range(6, 15)) : l[sim.d(4)])); }
      bool limited = lim || sim.d(2); int nt = (int) (lim ? sim.range(1, 2) : sim.range(2, 3)); bool disturb = sim.d(2), files = sim.p(1, 8); std::vector<std::function<void()>> f; std::vector<std::unique_ptr<Code>> codes; u32 same = sim.d(2);
      for (int t = 0; t < nt; t++) {
          codes.emplace_back(new Code(m)); Code &c = *codes.back(); c.o = base.o; c.o.split = !same; c.isc = base.isc; c.img = LIB(pt_image_alloc("i")); if (!c.img) sim.fail("setup", "pt_image_alloc"); bool late = sim.d(2); if (!late) { c.fill(c.img); }
          u32 n = sim.range(1, 2); struct R { bool blk; RunOpt o; }; std::vector<R> rs; for (u32 k = 0; k < n; k++) { R r; r.blk = sim.p(3, 4); r.o.end_on_call = sim.p(1, 6); r.o.end_on_jump = sim.p(1, 6); r.o.sync = 0; rs.push_back(r); }
          f.push_back([&c, rs, late, &m]() { if (late) c.fill(c.img); for (auto &r : rs) { if (r.blk) check_block(m, c, r.o); else check_insn(m, c, r.o); } });
      }
      if (disturb) { u32 n = sim.range(2, 10); std::vector<u32> w; for (u32 k = 0; k < 3 * n; k++) w.push_back(sim.d(1000)); auto isc = base.isc; f.push_back([isc, w]() { for (size_t k = 0; k + 2 < w.size(); k += 3) { int r = 0; if (w[k] % 3 == 0) r = LIB(pt_iscache_set_limit(isc, w[k + 1] % 5 ? w[k + 1] * 5 : 0)); else if (w[k] % 3 == 1) r = LIB(pt_iscache_add_file(isc, "/sim/junk", w[k + 1], w[k + 2] + 1, 0x100000 * (u64) w[k])); else { u8 b[16]; r = LIB(pt_iscache_read(isc, b, 16, 1 + (int)(w[k + 1] % 6), 0)); if (r == -pte_nomap || r == -pte_bad_image) r = 0; } if (r < 0) sim.fail("setup", "cache operation fails: %s", errname(r)); par_point("gap"); } }); }
      if (files) seam.enable(F_MMAP, 1);
      par_run(f, 60000000); seam.disable_all();
      sim.nontrivial = m.t.x.size() > 3;
      for (auto &c : codes) { if (sim.d(2)) { LIB(pt_image_free(c->img)); c->img = nullptr; } c->isc = nullptr; }
      if (limited) { u64 n = sim.d(3) ? sim.d(20000) : sim.d(1000); int r = LIB(pt_iscache_set_limit(base.isc, n)); if (r < 0) sim.fail("limit", "pt_iscache_set_limit: %s", errname(r)); check_limit(base.isc, n, "after decoding"); }
    }
    seam.check_released("end of run");
}
static void c21() { parallel(false); }
static void c19b() { parallel(true); }
SCENARIO("C19b", c19b, "the section cache's limit with decoders whose block caches grow the sections");
SCENARIO("C21", c21, "decoders in parallel over shared sections");
#endif
