#include "sb_world.h"
#include <cstring>
static const u8 ops1[] = {0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9c,0x9d,0xf5,0xf8,0xf9,0xfc,0xfd};
void le_put(std::vector<u8> &b, u64 v, int n) { for (int k = 0; k < n; k++) b.push_back((u8)(v >> (8 * k))); }
std::vector<u8> SbOs::opbytes(size_t n) { std::vector<u8> d(n); u64 v = ++ver; for (size_t k = 0; k < n; k++) d[k] = ops1[mix64(v * 1000003 + k * 7919) % sizeof ops1]; return d; }
void SbOs::put(const std::string &f, std::vector<u8> d) { seam.put(f, d, 1000 + ver); }
static void elf_header(std::vector<u8> &d, int abi) // 1 x64, 2 x32, 3 ia32
{
    memset(d.data(), 0, 64); memcpy(d.data(), "\177ELF", 4); d[4] = abi == 1 ? 2 : 1; d[5] = 1; d[6] = 1; d[16] = 2; d[18] = abi == 3 ? 3 : 62; d[20] = 1;
}
void SbOs::files()
{
    root = sim.d(2) ? "/sim/root" : ""; nfiles = (int) sim.range(2, 5); const char *pre = root.empty() ? "/sim" : "";
    for (int i = 0; i < nfiles; i++) { auto d = opbytes(64 + 16 + sim.d(sim.d(2) ? 300 : 60)); bool e = sim.d(2); elf.push_back(e); if (e) elf_header(d, 1 + (int) sim.d(3)); put(root + pre + "/f" + std::to_string(i), d); }
    for (int a = 1; a < 4; a++) if (sim.d(4)) { vdso[a] = "/sim/vdso" + std::to_string(a); put(vdso[a], opbytes(100)); }
    u32 k = 1 + sim.d(3); for (u32 i = 0; i < k; i++) { std::string f = "/sim/kcore" + std::to_string(i); auto d = opbytes(64 + sim.d(200)); put(f, d); }
}
static MSecP section(const std::string &f, u64 off, u64 size)
{
    auto i = seam.files.find(f); if (i == seam.files.end() || off >= i->second->data.size()) return nullptr;
    auto s = std::make_shared<MSec>(); s->file = f; s->off = off; s->size = std::min<u64>(size, i->second->data.size() - off); s->ino = i->second; s->data = i->second->data; s->mtime = i->second->mtime; s->fsize = s->data.size(); return s;
}
MSecP sb_section(const std::string &f, u64 off, u64 size) { return section(f, off, size); }
void SbOs::streams()
{
    u32 n = sim.d(4) ? sim.range(1, 4) : 1; wide = sim.d(2); mmap2 = sim.d(2); run.assign(n, 0);
    delta = sim.d(2) ? 0 : sim.d(200);
    static const u64 flags[] = {0x40, 0x80, 0x200}; u64 base = 2 | 4; for (u64 f : flags) if (sim.d(2)) base |= f;
    for (u32 c = 0; c <= n; c++) {
        SbStream s; s.cpu = (int) c; s.primary = c == 0; s.file = "/sim/perf" + std::to_string(c);
        if (c == n) { if (sim.d(2)) continue; s.cpu = 1000; s.notime = sim.d(2); s.file = "/sim/perf-init"; }
        s.cfg.sample_type = base; if (wide && sim.p(1, 3)) s.cfg.sample_type &= ~2ull; if (s.notime) s.cfg.sample_type &= ~4ull; if (sim.p(1, 2)) s.cfg.sample_type |= 0x10000;
        if (sim.p(1, 3)) { u32 m = sim.range(1, 3); for (u32 k = 0; k < m; k++) s.cfg.by_id.push_back({1000 + 10 * c + k, (s.cfg.sample_type ^ (sim.d(2) ? 0x40 : 0) ^ (sim.d(2) ? 0x80 : 0)) | 0x10000}); }
        s.cfg.shift = (u16) sim.d(32); u32 lo = 1u << (s.cfg.shift > 9 ? s.cfg.shift - 9 : 0); s.cfg.mult = lo + (u32) sim.dbits(31) % (0xffffffffu - lo); if (sim.d(2)) s.cfg.mult = lo + sim.d(lo); s.cfg.zero = sim.d(2) ? sim.dbits(sim.d(2) ? 63 : 40) : 0;
        u64 qq = ((1ull << s.cfg.shift) / s.cfg.mult) + 2; q = std::max(q, qq);
        s.skew = sim.d(2) ? 0 : (s64) sim.d(100000) - 50000; s.offset = (u64) s.skew + delta;
        st.push_back(std::move(s));
    }
    for (size_t k = 1; k < st.size(); k++) std::swap(st[k], st[sim.d((u32) k + 1)]);
    step = delta + q + 2 + sim.d(50); t = 1000000;
}
u64 SbOs::eff(const SbStream &s, const PRec &r) const
{
    if (!(r.st & 4)) return 0;
    u64 v = ptsc(s.cfg, r.time); if ((s64) s.offset >= 0) return v >= s.offset ? v - s.offset : 0; return v < s.offset ? v - s.offset : ~0ull;
}
PRec &SbOs::rec(int si, u32 type, u16 misc, std::vector<u8> body, const std::string &str, bool synth)
{
    SbStream &s = st[si]; PRec r; r.type = type; r.misc = misc; r.body = std::move(body); r.str = str; r.st = s.cfg.sample_type;
    u32 p = s.cpu < (int) run.size() ? run[s.cpu] : 0; r.pid = p; r.tid = p + (sim.d(3) ? 0 : 10000 + sim.d(5));
    if (!s.cfg.by_id.empty() && sim.d(3)) { auto &e = sim.pick(s.cfg.by_id); r.st = e.second; r.identifier = e.first; } else r.identifier = 5 + sim.d(10);
    if (type == 14 && !wide) r.st |= 0; r.id = sim.d(100); r.stream_id = sim.d(100); r.cpu = (u32) s.cpu; r.time = synth ? 0 : ptime(s.cfg, (u64)((s64) t + s.skew));
    if (!(r.st & 0x10000) && !s.cfg.by_id.empty()) { r.st = s.cfg.by_id[0].second; r.identifier = s.cfg.by_id[0].first; }      // otherwise a field could be taken for an identifier
    s.recs.push_back(r); s.loud.push_back(0); LOG("  t %llu stream %s rec type %u misc %x pid %u %s eff %llx\n", X(t), s.file.c_str(), type, misc, p, str.c_str(), X(eff(s, s.recs.back()))); sim.h(type + t); sim.count("records"); return s.recs.back();
}
static std::vector<u8> words(std::initializer_list<std::pair<u64, int>> l) { std::vector<u8> b; for (auto &w : l) le_put(b, w.first, w.second); return b; }
// The process maps something, as seen by the traced system.
void SbOs::map(int si, u32 pid, bool synth, bool exec)
{
    Proc &p = procs[pid]; SbStream &s = st[si]; int f = (int) sim.d((u32) nfiles); std::string name = (root.empty() ? "/sim/f" : "/f") + std::to_string(f), file = root + name; u64 va = user + (sim.d(3) ? sim.d(ulen - 0x100) : sim.d(8) * 0x100), fs = seam.files[file]->data.size();
    u64 off = sim.d(2) ? 64 : 64 + sim.d((u32) fs - 64), len = sim.d(3) ? 1 + sim.d(200) : 0x100; u16 misc = 2; bool unknown = false, ignored = false; int loud = 0;
    if (!exec) switch (sim.weighted({60, 4, 3, 3, 5, 4, 3})) {
    case 1: name = sim.d(2) ? "//anon" : "[heap]"; unknown = true; loud = ptse_section_lost; break;
    case 2: name += " (deleted)"; unknown = true; loud = ptse_section_lost; break;
    case 3: name = root.empty() ? "/sim/gone" : "/gone"; unknown = true; loud = -1; break;
    case 4: misc = 1; va = sim.d(2) ? kern + sim.d(klen) : va; ignored = true; break;      // a kernel mapping: the kernel image is authoritative
    case 5: { name = "[vdso]"; off = 0; if (p.abi && !vdso[p.abi].empty()) { file = vdso[p.abi]; len = 100; } else { unknown = true; loud = -1; } } break;
    case 6: off = fs + sim.d(3); unknown = true; loud = -1; break;                                       // nothing of the file left there
    }
    if (sim.p(1, 6)) misc |= (u16)(1 << (12 + sim.d(4)));      // other marks do not matter
    std::vector<u8> b = words({{pid, 4}, {pid + sim.d(2), 4}, {va, 8}, {len, 8}, {off, 8}}); bool two = mmap2 && sim.d(8); if (two) { auto x = words({{8, 4}, {1, 4}, {sim.d(1000), 8}, {0, 8}, {5, 4}, {2, 4}}); b.insert(b.end(), x.begin(), x.end()); }
    rec(si, two ? 10 : 1, misc, b, name, synth); s.loud.back() = loud; if (ignored) return;
    if (!unknown || name[0] != '[') if (!p.abi && name != "//anon" && name.find("(deleted)") == std::string::npos && name[0] == '/') {        // the first file tells the ABI
        auto i = seam.files.find(file); if (unknown && file.find("/gone") != std::string::npos) i = seam.files.end(); if (name.find("gone") != std::string::npos) i = seam.files.end();
        if (i != seam.files.end()) { auto &d = i->second->data; if (!memcmp(d.data(), "\177ELF", 4)) p.abi = d[4] == 2 ? 1 : d[18] == 62 ? 2 : 3; } }
    if (unknown) World::add(p.mm, Ent{NOCR3, NOVM, va, len, 0, 0, nullptr});
    else { auto sec = section(file, off, len); World::add(p.mm, Ent{NOCR3, NOVM, va, sec->size, 0, 0, sec}); if (sec->size < len) World::add(p.mm, Ent{NOCR3, NOVM, va + sec->size, len - sec->size, 0, 0, nullptr}); }
}
void SbOs::populate(int si, u32 pid, bool synth)
{
    u32 n = 1 + sim.d(5); for (u32 k = 0; k < n; k++) { if (!synth) tick(); map(si, pid, synth, k == 0); }
}
static u16 out_misc() { return (u16)(1 << 13 | (sim.p(1, 4) ? 1 << 14 : 0)); }      // preempted
void SbOs::sched(int c, u32 to)
{
    int si = stream(c); u32 from = run[c]; bool out = sim.d(8) || true;
    if (wide) {
        if (out) { rec(si, 15, out_misc(), words({{to, 4}, {to, 4}})); if (!c) { announced = to; known = true; } if (between) between(); }
        tick(); run[c] = to; rec(si, 15, 0, words({{from, 4}, {from, 4}}));
    } else { if (sim.d(2)) { rec(si, 14, out_misc(), {}); if (between) between(); tick(); } run[c] = to; rec(si, 14, 0, {}); if (!c) { announced = to; known = true; } }
}
// Something the processor's current process does in the kernel.
void SbOs::action(int c)
{
    int si = stream(c); u32 pid = run[c]; Proc *p = pid && procs.count(pid) ? &procs[pid] : nullptr;
    switch (p ? sim.weighted({40, 20, 12, 6, 8, 6, 8}) : sim.weighted({0, 20, 0, 0, 0, 6, 0})) {
    case 0: map(si, pid, false); break;
    case 1: { std::vector<u32> v; for (auto &x : procs) v.push_back(x.first); if (sim.p(1, 6)) v.push_back(0); if (v.empty()) v.push_back(0); u32 to = sim.pick(v); sched(c, to); } break;
    case 2: { // a new process, or a new thread
        if (sim.p(1, 3)) { rec(si, 7, 0, words({{pid, 4}, {pid, 4}, {++nextpid, 4}, {pid, 4}, {sim.d(1000), 8}})); p->threads++; break; }
        u32 np; if (!dead.empty() && sim.d(2)) { u32 k = sim.d((u32) dead.size()); np = dead[k]; dead.erase(dead.begin() + k); sim.count("pid-reuse"); } else np = ++nextpid;
        Proc ch; ch.pid = np; ch.mm = p->mm; ch.abi = 0; procs[np] = ch; rec(si, 7, 0, words({{np, 4}, {pid, 4}, {np, 4}, {pid + sim.d(2) * 7777, 4}, {sim.d(1000), 8}})); sim.count("forks"); } break;
    case 3: { // exit
        if (running(pid, c)) break; rec(si, 4, 0, words({{pid, 4}, {1, 4}, {pid, 4}, {1, 4}, {sim.d(1000), 8}})); procs.erase(pid); tick();
        std::vector<u32> v{0}; for (auto &x : procs) v.push_back(x.first); sched(c, sim.pick(v)); dead.push_back(pid); sim.count("exits"); } break;
    case 4: { // exec
        if (running(pid, c)) break; p->mm = kernel; p->abi = 0; stat_exec++; rec(si, 3, (u16)(1 << 13 | (sim.d(2) ? 2 : 0)), words({{pid, 4}, {pid, 4}}), "exec"); tick(); populate(si, pid, false); sim.count("execs"); } break;
    case 5: switch (sim.d(p ? 7 : 6)) { // records that change nothing
        case 0: rec(si, 3, 0, words({{pid, 4}, {pid, 4}}), "renamed"); break; case 1: rec(si, 11, 0, words({{sim.d(1000), 8}, {sim.d(1000), 8}, {sim.d(3) ? 0 : sim.d(8) << 1, 8}})); break;
        case 2: rec(si, 13, 0, words({{sim.d(9), 8}})); break; case 3: rec(si, sim.d(2) ? 5 : 6, 0, words({{1, 8}, {2, 8}, {3, 8}})); break;
        case 4: rec(si, 11, 0, words({{sim.d(1000), 8}, {sim.d(1000), 8}, {1 | (sim.d(3) ? 0 : sim.d(8) << 1), 8}})); st[si].loud.back() = st[si].primary ? ptse_trace_lost : 0; break;
        case 6: rec(si, 4, 0, words({{pid, 4}, {pid, 4}, {10000 + sim.d(5), 4}, {pid, 4}, {sim.d(1000), 8}})); sim.count("thread-exits"); break;      // the process lives on
        default: if (!secondary(c)) break; rec(si, 12, 0, words({{sim.d(4) ? (procs.empty() ? 7u : procs.begin()->first) : 7, 4}, {7, 4}})); break; } break;
    case 6: if (p->mm.e.size() > 3) { tick(); map(si, pid, false); tick(); map(si, pid, false); } break;
    }
}
void SbOs::finish()
{
    for (auto &s : st) {
        s.bytes.clear(); s.at.clear(); for (auto &r : s.recs) { s.at.push_back(s.bytes.size()); auto b = pbytes(r); s.bytes.insert(s.bytes.end(), b.begin(), b.end()); }
        std::vector<u8> f; if (sim.d(3) == 0) { s.begin = 8 * sim.d(20); for (size_t k = 0; k < s.begin; k++) f.push_back((u8) sim.d(256)); }
        f.insert(f.end(), s.bytes.begin(), s.bytes.end()); s.end = sim.d(2) ? f.size() : 0; if (s.end && sim.d(2)) for (int k = 0; k < 40; k++) f.push_back((u8) sim.d(256));
        if (s.end && s.end <= s.begin) { s.end = 0; f.resize(s.begin); } put(s.file, f); s.keep.reset(new PevCfg(s.cfg));
    }
}

static SbSess *cur;
static int on_error(int err, const char *file, uint64_t off, void *p) { auto *s = (SbSess *) p; sim.h((u64) err + off); s->notes.push_back({err, file ? file : "", off}); LOG("  note %d %s %llx\n", err, file ? file : "-", X(off)); return s->answer; }
static int on_switch(const pt_sb_context *c, void *p) { auto *s = (SbSess *) p; s->switches++; s->last = c; LOG("  switch notification\n"); return 0; }
static int off_error(int, const char *, uint64_t, void *) { sim.fail("notifier", "an error notifier is called that was replaced"); }
static int off_switch(const pt_sb_context *, void *) { sim.fail("notifier", "a context switch notifier is called that was replaced"); }
bool SbSess::open(bool notify)
{
    cur = this; if (sim.d(3)) { isc = LIB(pt_iscache_alloc("sb")); if (!isc) return false; if (sim.d(2)) (void) LIB(pt_iscache_set_limit(isc, sim.d(2) ? sim.d(1000) : 100000)); }
    s = LIB(pt_sb_alloc(isc)); if (!s) return false;
    if (notify) { // installing gives back what was installed before; none may be called again
        pt_sb_error_notifier_t *pe = nullptr, *e; pt_sb_ctx_switch_notifier_t *ps = nullptr, *w;
        for (u32 k = sim.d(3); k > 0; k--) { e = sim.d(2) ? off_error : nullptr; w = sim.d(2) ? off_switch : nullptr; auto *re = LIB(pt_sb_notify_error(s, e, nullptr)); auto *rw = LIB(pt_sb_notify_switch(s, w, nullptr)); if (re != pe || rw != ps) sim.fail("notifier", "installing a notifier does not give back the one installed before"); pe = e; ps = w; sim.count("notifier-replaced"); }
        if (LIB(pt_sb_notify_error(s, on_error, this)) != pe || LIB(pt_sb_notify_switch(s, on_switch, this)) != ps) sim.fail("notifier", "installing a notifier does not give back the one installed before");
    }
    return true;
}
int SbSess::add(SbOs &os, SbStream &st)
{
    pt_sb_pevent_config c; memset(&c, 0, sizeof c); c.size = sizeof c; c.filename = st.file.c_str(); c.begin = st.begin; c.end = st.end; c.sysroot = os.root.empty() ? nullptr : os.root.c_str();
    c.vdso_x64 = os.vdso[1].empty() ? nullptr : os.vdso[1].c_str(); c.vdso_x32 = os.vdso[2].empty() ? nullptr : os.vdso[2].c_str(); c.vdso_ia32 = os.vdso[3].empty() ? nullptr : os.vdso[3].c_str();
    c.sample_type = st.cfg.sample_type; c.kernel_start = SbOs::kimg; c.time_shift = st.cfg.shift; c.time_mult = st.cfg.mult; c.time_zero = st.cfg.zero; c.tsc_offset = st.offset; c.primary = st.primary; c.sample_config = st.keep->c.sample_config;
    return LIB(pt_sb_alloc_pevent_decoder(s, &c));
}
void SbSess::close() { if (s) LIB(pt_sb_free(s)); s = nullptr; if (isc) LIB(pt_iscache_free(isc)); isc = nullptr; }
SbSess::~SbSess() { seam.disable_all(); if (s) pt_sb_free(s); if (isc) pt_iscache_free(isc); }

void read_image(pt_image *img, const MImg &m, u64 from, u64 to, const char *when, bool (*skip)(u64))
{
    std::vector<World::Got> g; std::vector<const Ent *> es; for (auto &e : m.e) if (e.begin < to && e.begin + e.size > from) es.push_back(&e);
    std::sort(es.begin(), es.end(), [](const Ent *a, const Ent *b) { return a->begin < b->begin; });
    u64 a = from; size_t k = 0; (void) skip;
    while (a < to) {
        while (k < es.size() && es[k]->begin + es[k]->size <= a) k++;
        const Ent *e = k < es.size() && es[k]->begin <= a ? es[k] : nullptr; u64 end = e ? std::min(to, e->begin + e->size) : k < es.size() ? std::min(to, es[k]->begin) : to;
        if (e && !e->s) { a = end; continue; }
        if (!e) { // nothing mapped
            int r = probe_image(img, NOCR3, NOVM, a, 1, g, false); if (!g.empty()) sim.fail("stale-code", "%s: nothing is mapped at %llx, reads %02x", when, X(a), g[0].byte);
            if (r != -pte_nomap) sim.fail("read", "%s: reading unmapped %llx: %s", when, X(a), errname(r));
            if (end - a > 2 && sim.d(2)) { u64 b = a + 1 + sim.d((u32) std::min<u64>(end - a - 1, 1u << 30)); r = probe_image(img, NOCR3, NOVM, b, 1, g, false); if (!g.empty()) sim.fail("stale-code", "%s: nothing is mapped at %llx, reads %02x", when, X(b), g[0].byte); }
            if (end - a > 1) { r = probe_image(img, NOCR3, NOVM, end - 1, 1, g, false); if (!g.empty()) sim.fail("stale-code", "%s: nothing is mapped at %llx, reads %02x", when, X(end - 1), g[0].byte); }
            a = end; sim.count("gaps-checked"); continue; }
        size_t want = (size_t)(end - a); int r = probe_image(img, NOCR3, NOVM, a, want, g, false);
        for (size_t i = 0; i < g.size(); i++) if (g[i].byte != e->at(a + i)) sim.fail("wrong-code", "%s: %llx reads %02x instead of %02x (%s+%llx mapped at %llx)", when, X(a + i), g[i].byte, e->at(a + i), e->s->file.c_str(), X(e->s->off), X(e->begin - e->soff));
        if (g.size() < want) sim.fail("code-lost", "%s: %llx (%s+%llx mapped at %llx) reads as %s", when, X(a + g.size()), e->s->file.c_str(), X(e->s->off), X(e->begin - e->soff), errname(r));
        sim.count("bytes-checked", want); a = end;
    }
}
void sample_image(pt_image *img, const MImg &m, bool all, const char *when)
{
    if (all) { read_image(img, m, SbOs::user - 2, SbOs::user + SbOs::ulen + 0x200, when); read_image(img, m, SbOs::kern - 2, SbOs::kern + SbOs::klen + 0x200, when); return; }
    u32 n = 1 + sim.d(3); for (u32 k = 0; k < n; k++) {
        if (!m.e.empty() && sim.d(4)) { auto &e = sim.pick(m.e); if (e.begin >> 46) continue; u64 a = e.begin + sim.d((u32) e.size); read_image(img, m, a, std::min<u64>(a + 1 + sim.d(40), e.begin + e.size + 1), when); }
        else { u64 a = SbOs::user + sim.d(SbOs::ulen); read_image(img, m, a, a + 1 + sim.d(20), when); } }
}
