#include "image_world.h"
static const u8 ops1[] = {0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9c,0x9d,0xf5,0xf8,0xf9,0xfc,0xfd};
static u8 opat(u64 a, u64 b, u64 c) { return ops1[mix64(a * 1000003 + b * 7919 + c) % sizeof ops1]; }
static World *cur; static u64 cb_calls; 
static int world_cb(uint8_t *buf, size_t size, const pt_asid *as, uint64_t ip, void *ctx)
{
    World &w = *cur; size_t i = (size_t) ctx; cb_calls++;
    for (auto &e : w.mod[i].e) if (World::match(e.cr3, e.vmcs, as->cr3, as->vmcs) && ip - e.begin < e.size) sim.fail("callback", "memory callback called for %llx, which a section holds", X(ip));
    for (size_t k = 0; k < size; k++) buf[k] = opat(77, ip + k, as->cr3);
    return (int) size;
}
World::World()
{
    cur = this; nfiles = 2 + sim.d(3); gen_files(); u32 n = 1 + sim.d(2);
    for (u32 i = 0; i < n; i++) { pt_image *p = LIB(pt_image_alloc(sim.d(2) ? "image" : nullptr)); if (!p) sim.fail("image-setup", "no image"); img.push_back(p); mod.push_back(MImg()); }
    isc = LIB(pt_iscache_alloc(sim.d(2) ? "cache" : nullptr)); if (!isc) sim.fail("image-setup", "no section cache");
    if (sim.d(2)) (void) LIB(pt_iscache_set_limit(isc, sim.d(3) ? sim.d(400) : 4096 * sim.d(20)));
}
void World::release() { seam.disable_all(); for (auto *p : img) LIB(pt_image_free(p)); img.clear(); if (isc) LIB(pt_iscache_free(isc)); isc = nullptr; }
World::~World() { seam.disable_all(); for (auto *p : img) pt_image_free(p); if (isc) pt_iscache_free(isc); }
void World::write_file(int i, u64 size) { std::vector<u8> d(size); ver++; for (u64 k = 0; k < size; k++) d[k] = opat(i, ver, k); seam.put(fname(i), d, tick()); }
void World::gen_files() { for (int i = 0; i < nfiles; i++) write_file(i, sim.p(1, 8) ? 4096 + sim.d(300) : 1 + sim.d(200)); }
void World::carve(MImg &m, const Ent &n)
{
    std::vector<Ent> r; u64 b = n.begin, e = n.begin + n.size;
    for (auto &x : m.e) {
        u64 xb = x.begin, xe = x.begin + x.size;
        if (!match(x.cr3, x.vmcs, n.cr3, n.vmcs) || e <= xb || xe <= b) { r.push_back(x); continue; }
        if (xb < b) { Ent y = x; y.size = b - xb; r.push_back(y); }
        if (e < xe) { Ent y = x; y.begin = e; y.size = xe - e; y.soff = x.soff + (e - xb); r.push_back(y); }
    }
    m.e = r;
}
int World::probe(int i, u64 cr3, u64 vm, u64 addr, size_t max, std::vector<Got> &g) { return probe_image(img[i], cr3, vm, addr, max, g, io_faults); }
int probe_image(pt_image *img, u64 cr3, u64 vm, u64 addr, size_t max, std::vector<World::Got> &g, bool io_faults)
{
    u8 t[80]; size_t n = 0; g.clear(); auto b = [&](std::initializer_list<u8> l) { for (u8 x : l) t[n++] = x; };
    for (int k = 0; k < 8; k++) b({2, 0x82});
    if (cr3 != NOCR3) { b({2, 0x43}); for (int k = 0; k < 6; k++) t[n++] = (u8)((cr3 >> 4) >> 8 * k); }
    if (vm != NOVM) { b({2, 0xc8}); for (int k = 0; k < 5; k++) t[n++] = (u8)((vm >> 12) >> 8 * k); }
    b({0x99, 1}); b({0x7d}); { u64 ip = (u64)((s64)(addr << 16) >> 16); for (int k = 0; k < 6; k++) t[n++] = (u8)(ip >> 8 * k); } b({2, 0x23});
    pt_config cf; pt_config_init(&cf); cf.begin = t; cf.end = t + n; 
    pt_insn_decoder *d = LIB(pt_insn_alloc_decoder(&cf)); if (!d) return -pte_nomem; struct G { pt_insn_decoder *d; ~G() { LIB(pt_insn_free_decoder(d)); } } gd{d};
    int r = LIB(pt_insn_set_image(d, img)); if (r < 0) sim.fail("image-setup", "pt_insn_set_image: %s", errname(r));
    int st = LIB(pt_insn_sync_forward(d)); if (st < 0) { if (!io_faults || st != -pte_nomem) sim.fail("image-setup", "sync: %s", errname(st)); return st; }
    while (g.size() < max) {
        while (st & pts_event_pending) { pt_event e; st = LIB(pt_insn_event(d, &e, sizeof e)); if (st < 0) return st; }
        pt_insn in; memset(&in, 0, sizeof in); st = LIB(pt_insn_next(d, &in, sizeof in));
        if (st < 0) { if (st == -pte_eos && in.size && in.ip == addr + g.size()) { g.push_back({in.raw[0], in.isid}); } return st; }
        if (in.ip != addr + g.size() || in.size != 1) sim.fail("wrong-code", "at %llx: instruction at %llx of %d bytes", X(addr + g.size()), X(in.ip), in.size);
        g.push_back({in.raw[0], in.isid});
    }
    return 0;
}
bool World::changed(const MSec &s) const { auto i = seam.files.find(s.file); return i == seam.files.end() || i->second->data.size() != s.fsize || i->second->mtime != s.mtime; }
bool World::mapped(const MSec &s) const { for (auto &m : seam.maps) if (m.second.ino == s.ino) return true; for (auto &m : seam.fds) if (m.second.ino == s.ino) return true; return false; }
void World::check(int i, u64 cr3, u64 vm, u64 from, u64 to, const char *when)
{
    MImg &m = mod[i]; std::vector<Got> g; u64 a = from;
    auto cand = [&](u64 x) { std::vector<const Ent *> v; for (auto &e : m.e) if (match(e.cr3, e.vmcs, cr3, vm) && x - e.begin < e.size) v.push_back(&e); return v; };
    while (a < to) {
        std::vector<MSecP> wasmapped; for (auto &e : m.e) if (mapped(*e.s)) wasmapped.push_back(e.s);
        u64 fired = seam.fired; int r = probe(i, cr3, vm, a, to - a, g); if (r == -pte_eos) r = 0; sim.h(g.size());
        for (auto &x : g) {
            auto c = cand(a); bool ok = false;
            if (c.empty()) ok = m.cb && x.isid == 0 && x.byte == opat(77, a, cr3);
            for (auto *e : c) if (x.byte == e->at(a) && x.isid == e->isid && (!changed(*e->s) || std::find(wasmapped.begin(), wasmapped.end(), e->s) != wasmapped.end())) ok = true;
            if (!ok) sim.fail(c.empty() ? "reads-removed" : "wrong-code", "%s: image %d cr3 %llx vmcs %llx at %llx reads %02x of section %d, expected %s", when, i, X(cr3), X(vm), X(a), x.byte, x.isid, c.empty() ? (m.cb ? "the callback's" : "nothing") : (changed(*c[0]->s) ? "an error as the file has changed" : hexs((const u8 *) &(const u8 &) std::array<u8, 1>{c[0]->at(a)}[0], 1).c_str()));
            a++; sim.count("addresses-checked");
        }
        if (r < 0 && a < to) {
            auto c = cand(a); bool bad = false; for (auto *e : c) bad |= changed(*e->s);
            if (r == -pte_nomap) { if (!c.empty() && !bad && seam.fired == fired) sim.fail("code-lost", "%s: image %d cr3 %llx vmcs %llx at %llx reads as unmapped, but is in section %d", when, i, X(cr3), X(vm), X(a), c[0]->isid); if (c.empty() && m.cb) sim.fail("callback", "%s: callback not used at %llx", when, X(a)); }
            else if (!bad && seam.fired == fired) sim.fail("read-fails", "%s: image %d cr3 %llx vmcs %llx at %llx: %s", when, i, X(cr3), X(vm), X(a), errname(r));
            sim.count("unreadable-checked");
            u64 nx = to; for (auto &e : m.e) { if (e.begin > a) nx = std::min(nx, e.begin); if (e.begin + e.size > a) nx = std::min(nx, e.begin + e.size); }
            a = sim.d(4) && nx > a + 2 ? a + 1 + sim.d((u32)(nx - a)) : std::max(a + 1, nx);
        } else if (!r && g.empty()) sim.fail("read-fails", "no progress");
    }
}
void World::check_all(const char *when)
{
    for (size_t i = 0; i < img.size(); i++) for (u64 c : cr3s) for (u64 v : vms) { if (v != NOVM && c != NOCR3 && sim.d(2)) continue; check((int) i, c, v, arena - 2, arena + alen + 2, when); }
    check_cache(when);
}
void World::check_some(const char *when)
{
    int i = (int) sim.d((u32) img.size()); u64 a = arena + sim.d((u32) alen); check(i, sim.pick(cr3s), sim.pick(vms), a, std::min(arena + alen, a + 1 + sim.d(60)), when);
    if (!sim.d(3)) check_cache(when);
}
void World::check_cache(const char *when)
{
    for (size_t k = 0; k < cent.size(); k++) {
        auto &c = cent[k]; if (!c.s->size) continue; u64 o = sim.d((u32) c.s->size); u32 n = 1 + sim.d(40); u8 b[64]; bool wm = mapped(*c.s), ch = changed(*c.s); u64 fired = seam.fired;
        int r = LIB(pt_iscache_read(isc, b, n, (int) k + 1, c.vaddr + o));
        if (r < 0) { if (!ch && seam.fired == fired) sim.fail("cache-read", "%s: reading %u bytes at %llx of section %zu: %s", when, n, X(c.vaddr + o), k + 1, errname(r)); continue; }
        if (ch && !wm) sim.fail("cache-read", "%s: section %zu reads although its file has changed", when, k + 1);
        u64 want = std::min<u64>(n, c.s->size - o); if ((u64) r > want || ((u64) r < want && seam.fired == fired)) sim.fail("cache-read", "%s: reading %u bytes at %llx of section %zu gives %d bytes, expected %llu", when, n, X(c.vaddr + o), k + 1, r, X(want));
        for (int q = 0; q < r; q++) if (b[q] != c.s->data[(size_t)(c.s->off + o + q)]) sim.fail("cache-read", "%s: section %zu reads wrong bytes at %llx", when, k + 1, X(c.vaddr + o + q));
        int r2 = LIB(pt_iscache_read(isc, b, 1, (int) k + 1, sim.d(2) ? c.vaddr + c.s->size + sim.d(3) : c.vaddr - 1 - sim.d(3))); if (r2 >= 0) sim.fail("cache-read", "%s: section %zu reads outside its range", when, k + 1);
    }
    u8 x; int bad = (int) cent.size() + 1 + (int) sim.d(3); if (sim.d(2)) bad = -(int) sim.d(3); int r = LIB(pt_iscache_read(isc, &x, 1, bad, arena)); if (r >= 0) sim.fail("cache-read", "%s: identifier %d, never given out, reads", when, bad);
}
MSecP World::mksec(int f, u64 off, u64 size)
{
    auto i = seam.files.find(fname(f)); if (i == seam.files.end() || off >= i->second->data.size()) return nullptr;
    auto s = std::make_shared<MSec>(); s->file = fname(f); s->off = off; s->size = std::min<u64>(size, i->second->data.size() - off); s->ino = i->second; s->data = i->second->data; s->mtime = i->second->mtime; s->fsize = s->data.size(); return s;
}
World::Op World::gen()
{
    Op o; memset(&o, 0, sizeof o); o.k = (int) sim.weighted({40, 25, 25, 6, 4, 8, 3, 3}); o.i = (int) sim.d((u32) img.size()); o.j = (int) sim.d((u32) img.size()); o.file = (int) sim.d(nfiles);
    auto it = seam.files.find(fname(o.file)); u64 fs = it == seam.files.end() ? 10 : it->second->data.size();
    o.off = sim.p(1, 3) ? 0 : sim.d((u32) std::min<u64>(fs, 200)); if (sim.p(1, 20)) o.off = fs + sim.d(3); if (fs > 4000 && sim.d(2)) o.off = 4090 + sim.d(10);
    o.size = sim.p(1, 4) ? 1000 : 1 + sim.d(sim.d(2) ? 20 : 120); if (sim.p(1, 40)) o.size = 0;
    o.vaddr = arena + (sim.p(1, 3) ? sim.d(4) * 0x40 : sim.d((u32) alen)); o.cr3 = sim.pick(cr3s); o.vm = sim.p(1, 3) ? sim.pick(vms) : NOVM; o.noasid = o.cr3 == NOCR3 && o.vm == NOVM && sim.d(2);
    o.isid = cent.empty() || sim.p(1, 15) ? (int) sim.d(6) - 2 + (int) cent.size() : 1 + (int) sim.d((u32) cent.size());
    if (!cent.empty() && o.k == 1 && sim.p(1, 3)) { auto &c = sim.pick(cent); o.file = atoi(c.s->file.c_str() + 6); o.off = c.s->off; o.size = sim.d(2) ? c.s->size : 1000; if (sim.d(2)) o.vaddr = c.vaddr; }
    if (o.vaddr + std::min<u64>(o.size, 500) > arena + alen) o.vaddr = arena;
    o.bad = false; return o;
}
static const char *opn[] = {"add_file", "cache_add", "add_cached", "remove_by_filename", "remove_by_asid", "copy", "set_callback", "set_limit"};
std::string World::str(const Op &o) const { char b[300]; snprintf(b, sizeof b, "%s image %d/%d file %d+%llx size %llx at %llx cr3 %llx vmcs %llx isid %d%s", opn[o.k], o.i, o.j, o.file, X(o.off), X(o.size), X(o.vaddr), X(o.cr3), X(o.vm), o.isid, o.noasid ? " (no asid)" : ""); return b; }
int World::run(const Op &o)
{
    pt_asid a = asid(o.cr3, o.vm), *pa = o.noasid ? nullptr : &a; std::string f = fname(o.file);
    if (!o.bad && !o.noasid && o.vm == NOVM && o.k != 5 && (o.off & 3) == 3) a.size = offsetof(pt_asid, vmcs);       // an older user's structure
    if (o.bad) switch (o.k) {
    case 0: return sim.d(2) ? LIB(pt_image_add_file(img[o.i], nullptr, o.off, o.size, pa, o.vaddr)) : LIB(pt_image_add_file(nullptr, f.c_str(), o.off, o.size, pa, o.vaddr));
    case 1: return sim.d(2) ? LIB(pt_iscache_add_file(isc, nullptr, o.off, o.size, o.vaddr)) : LIB(pt_iscache_add_file(nullptr, f.c_str(), o.off, o.size, o.vaddr));
    case 2: return LIB(pt_image_add_cached(img[o.i], nullptr, o.isid, pa));
    case 3: return LIB(pt_image_remove_by_filename(img[o.i], nullptr, pa));
    case 4: return LIB(pt_image_remove_by_asid(nullptr, pa));
    case 5: return LIB(pt_image_copy(img[o.i], nullptr));
    case 6: return LIB(pt_image_set_callback(nullptr, nullptr, nullptr));
    default: return LIB(pt_iscache_set_limit(nullptr, o.off));
    }
    switch (o.k) {
    case 0: return LIB(pt_image_add_file(img[o.i], f.c_str(), o.off, o.size, pa, o.vaddr));
    case 1: return LIB(pt_iscache_add_file(isc, f.c_str(), o.off, o.size, o.vaddr));
    case 2: return LIB(pt_image_add_cached(img[o.i], isc, o.isid, pa));
    case 3: return LIB(pt_image_remove_by_filename(img[o.i], f.c_str(), pa));
    case 4: return LIB(pt_image_remove_by_asid(img[o.i], pa));
    case 5: return LIB(pt_image_copy(img[o.i], img[o.j]));
    case 6: return LIB(pt_image_set_callback(img[o.i], o.off & 1 ? world_cb : nullptr, (void *)(size_t) o.i));
    default: return LIB(pt_iscache_set_limit(isc, o.off * 8));
    }
}
int World::expect(const Op &o)
{
    switch (o.k) { case 0: return mksec(o.file, o.off, o.size) ? 0 : -1;
    case 1: for (auto &c : cent) if (c.s->file == fname(o.file) && c.s->off == o.off && c.s->size == o.size) return 0; return mksec(o.file, o.off, o.size) ? 0 : -1;
    case 2: return o.isid >= 1 && o.isid <= (int) cent.size() ? 0 : -1; default: return 0; }
}
bool World::model(const Op &o, int r)
{
    auto rm = [&](std::function<bool(const Ent &)> p) { int n = 0; auto &e = mod[o.i].e; for (size_t k = 0; k < e.size(); ) if (p(e[k])) { e.erase(e.begin() + k); n++; } else k++; return n; };
    switch (o.k) {
    case 0: { auto s = mksec(o.file, o.off, o.size); add(mod[o.i], Ent{o.cr3, o.vm, o.vaddr, s->size, 0, 0, s}); } break;
    case 1: { // the same file range is shared, with the file as it was when it was first added
        MSecP s; for (auto &c : cent) if (c.s->file == fname(o.file) && c.s->off == o.off && c.s->size == o.size) { s = c.s; break; }
        if (!s) { s = mksec(o.file, o.off, o.size); for (auto &c : cent) if (c.s->file == s->file && c.s->off == s->off && c.s->size == s->size) { s = c.s; break; } }
        int want = (int) cent.size() + 1; for (size_t k = 0; k < cent.size(); k++) if (cent[k].s == s && cent[k].vaddr == o.vaddr) { want = (int) k + 1; break; }
        if (r != want) sim.fail("identifier", "adding to the cache returns %d, expected %d", r, want);
        if (want > (int) cent.size()) cent.push_back({s, o.vaddr}); } return true;
    case 2: { auto &c = cent[o.isid - 1]; add(mod[o.i], Ent{o.cr3, o.vm, c.vaddr, c.s->size, 0, o.isid, c.s}); } break;
    case 3: { int n = rm([&](const Ent &e) { return e.s->file == fname(o.file) && match(e.cr3, e.vmcs, o.cr3, o.vm); }); if (r != n) sim.fail("remove-count", "removing by file name returns %d, expected %d", r, n); } return true;
    case 4: { int n = rm([&](const Ent &e) { return match(e.cr3, e.vmcs, o.cr3, o.vm); }); if (r != n) sim.fail("remove-count", "removing by address space returns %d, expected %d", r, n); } return true;
    case 5: if (o.i != o.j) for (auto e : mod[o.j].e) add(mod[o.i], e); break;
    case 6: mod[o.i].cb = o.off & 1; break;
    }
    if (r) sim.fail("return-value", "%s returns %d", opn[o.k], r);
    return true;
}
bool World::same(int i, const MImg &m, std::string *why)
{
    MImg sv = mod[i]; mod[i] = m; bool ok = true; struct C { C() { sim.catching++; } ~C() { sim.catching--; } } c;
    try { for (u64 c : cr3s) for (u64 v : vms) check(i, c, v, arena - 1, arena + alen + 1, "compare"); } catch (Violation &x) { ok = false; if (why) *why = x.msg; }
    mod[i] = sv; return ok;
}
// The file clock: mostly moves forward, but jumps back (restored or older files); never the same time twice.
u64 World::tick() { if (sim.p(1, 3)) { sim.count("fault.file-clock-back"); return mlo--; } return mtime++; }
