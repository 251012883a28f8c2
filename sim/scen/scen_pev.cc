// C26: sideband records through the writer and the reader, in buffers of every size and on damaged storage.
#include "perf.h"
#include <algorithm>
#include <cstring>
#define X(v) ((unsigned long long)(v))
const char *errname(int e);
static void le(std::vector<u8> &b, u64 v, int n) { for (int k = 0; k < n; k++) b.push_back((u8)(v >> (8 * k))); }
static u64 gl(const u8 *p, int n) { u64 v = 0; for (int k = 0; k < n; k++) v |= (u64) p[k] << (8 * k); return v; }

size_t pfixed(u32 t)
{
    switch (t) {
    case 1: return 32; case 2: return 16; case 3: return 8; case 4: return 24; case 5: case 6: return 24; case 7: return 24; case 10: return 64;
    case 11: return 24; case 12: return 8; case 13: return 8; case 14: return 0; case 15: return 8;
    }
    return ~(size_t) 0;
}
bool pstring(u32 t) { return t == 1 || t == 3 || t == 10; }
enum { ST_TID = 2, ST_TIME = 4, ST_ID = 0x40, ST_CPU = 0x80, ST_STREAM = 0x200, ST_IDENT = 0x10000 };
static size_t ssize(u64 st) { return 8 * (size_t) __builtin_popcountll(st & (ST_TID | ST_TIME | ST_ID | ST_CPU | ST_STREAM | ST_IDENT)); }
std::vector<u8> pbytes(const PRec &r)
{
    std::vector<u8> b; le(b, r.type, 4); le(b, r.misc, 2); le(b, 0, 2); b.insert(b.end(), r.body.begin(), r.body.end());
    if (pstring(r.type)) { b.insert(b.end(), r.str.begin(), r.str.end()); b.push_back(0); while ((b.size() - 8 - r.body.size()) % 8) b.push_back(0); }
    if (r.st & ST_TID) { le(b, r.pid, 4); le(b, r.tid, 4); }
    if (r.st & ST_TIME) le(b, r.time, 8);
    if (r.st & ST_ID) le(b, r.id, 8);
    if (r.st & ST_STREAM) le(b, r.stream_id, 8);
    if (r.st & ST_CPU) { le(b, r.cpu, 4); le(b, 0, 4); }
    if (r.st & ST_IDENT) le(b, r.identifier, 8);
    b[6] = (u8) b.size(); b[7] = (u8)(b.size() >> 8); return b;
}
u64 ptsc(const PCfg &c, u64 t) { if (!t) return 0; return (u64)(((unsigned __int128)(t - c.zero) << c.shift) / c.mult); }
u64 ptime(const PCfg &c, u64 tsc) { return c.zero + (u64)(((unsigned __int128) tsc * c.mult) >> c.shift); }
int pparse(const std::vector<u8> &b, size_t at, const PCfg &c, PRec &r, size_t &size, u64 &tsc)
{
    if (b.size() - at < 8) return -1;
    const u8 *p = b.data() + at; r = PRec(); r.type = (u32) gl(p, 4); r.misc = (u16) gl(p + 4, 2); size = (size_t) gl(p + 6, 2);
    if (size < 8 || !r.type || size > b.size() - at) return -1;
    size_t f = pfixed(r.type); if (f == ~(size_t) 0) return 1;
    size_t pos = 8 + f; if (pos > size) return -1;
    r.body.assign(p + 8, p + 8 + f);
    if (pstring(r.type)) { const void *z = memchr(p + pos, 0, size - pos); if (!z) return -1; size_t n = (size_t)((const u8 *) z - (p + pos)); r.str.assign((const char *) p + pos, n); pos += (n + 8) & ~(size_t) 7; }
    if (pos > size) return -1;
    r.st = c.sample_type;
    if (size - pos >= 8) for (auto &e : c.by_id) if (e.first == gl(p + size - 8, 8)) { if (!(e.second & ST_IDENT)) return -1; r.st = e.second; break; }
    if (pos + ssize(r.st) != size) return -1;
    if (r.st & ST_TID) { r.pid = (u32) gl(p + pos, 4); r.tid = (u32) gl(p + pos + 4, 4); pos += 8; }
    if (r.st & ST_TIME) { r.time = gl(p + pos, 8); tsc = ptsc(c, r.time); pos += 8; } else tsc = 0;
    if (r.st & ST_ID) { r.id = gl(p + pos, 8); pos += 8; }
    if (r.st & ST_STREAM) { r.stream_id = gl(p + pos, 8); pos += 8; }
    if (r.st & ST_CPU) { r.cpu = (u32) gl(p + pos, 4); pos += 8; }
    if (r.st & ST_IDENT) r.identifier = gl(p + pos, 8);
    return 0;
}
PevCfg::PevCfg(const PCfg &p, bool old)
{
    pev_config_init(&c); c.sample_type = p.sample_type; c.time_shift = p.shift; c.time_mult = p.mult; c.time_zero = p.zero;
    if (old) c.size = offsetof(struct pev_config, sample_config);
    else if (!p.by_id.empty()) {
        sc.resize(sizeof(pev_sample_config) + p.by_id.size() * sizeof(pev_sample_type)); auto *s = (pev_sample_config *) sc.data(); s->nstypes = (u8) p.by_id.size();
        for (size_t k = 0; k < p.by_id.size(); k++) { memset(&s->stypes[k], 0, sizeof s->stypes[k]); s->stypes[k].identifier = p.by_id[k].first; s->stypes[k].sample_type = p.by_id[k].second; }
        c.sample_config = s;
    }
}

static u64 val64() { switch (sim.d(6)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << sim.d(64); case 3: return (1ull << sim.d(64)) - 1; default: return sim.d64(); } }
static u64 gen_st() { u64 st = 0; static const u64 f[] = {ST_TID, ST_TIME, ST_ID, ST_CPU, ST_STREAM}; for (u64 x : f) if (sim.d(2)) st |= x; return st; }
static PRec gen_rec(const PCfg &c)
{
    static const u32 types[] = {1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15};
    PRec r; r.type = types[sim.d(13)]; r.misc = (u16) sim.dbits(16); r.st = c.sample_type; bool other = false;
    if (!c.by_id.empty()) { if (sim.d(3)) { auto &e = sim.pick(c.by_id); r.st = e.second; r.identifier = e.first; other = true; } }
    r.body.resize(pfixed(r.type)); if (r.body.size() <= 24 || sim.d(2)) for (size_t k = 0; k + 8 <= r.body.size(); k += 8) { u64 v = val64(); for (int j = 0; j < 8; j++) r.body[k + j] = (u8)(v >> (8 * j)); }
    if (pstring(r.type)) {
        size_t n = sim.p(1, 40) ? 65536 - 8 - r.body.size() - ssize(r.st) - 30 + sim.d(40) : sim.p(1, 40) ? sim.d(70000) : sim.p(1, 6) ? sim.d(300) : sim.d(26);
        char ch = (char) sim.range('!', '~'); r.str.assign(n, ch); for (int k = 0; k < 4 && n; k++) r.str[sim.d((u32) n)] = (char) sim.range(1, 255);
    }
    r.pid = (u32) val64(); r.tid = (u32) val64(); r.id = val64(); r.stream_id = val64(); r.cpu = (u32) val64(); if (!other) r.identifier = val64();
    r.time = sim.d(4) ? ptime(c, sim.dbits(sim.d(2) ? 48 : 64)) : val64();
    return r;
}
// The event to write: every pointer refers to memory of exactly its size.
struct Ev {
    pev_event e; std::vector<std::unique_ptr<u8[]>> keep;
    template<class T> T *mem(const void *p, size_t n) { keep.emplace_back(new u8[n ? n : 1]); if (n) memcpy(keep.back().get(), p, n); return (T *) keep.back().get(); }
    Ev(const PRec &r)
    {
        pev_event_init(&e); e.type = r.type; e.misc = r.misc; std::vector<u8> b = r.body; if (pstring(r.type)) { b.insert(b.end(), r.str.begin(), r.str.end()); b.push_back(0); }
        e.record.mmap = mem<pev_record_mmap>(b.data(), b.size());
        if (r.st & ST_TID) { e.sample.pid = mem<u32>(&r.pid, 4); e.sample.tid = mem<u32>(&r.tid, 4); }
        if (r.st & ST_TIME) e.sample.time = mem<u64>(&r.time, 8);
        if (r.st & ST_ID) e.sample.id = mem<u64>(&r.id, 8);
        if (r.st & ST_STREAM) e.sample.stream_id = mem<u64>(&r.stream_id, 8);
        if (r.st & ST_CPU) e.sample.cpu = mem<u32>(&r.cpu, 4);
        if (r.st & ST_IDENT) e.sample.identifier = mem<u64>(&r.identifier, 8);
    }
};
static void read_all(const std::vector<u8> &img, const PCfg &pc, bool old, size_t whole, const std::vector<PRec> &recs, const char *what)
{
    PevCfg cfg(pc, old); PCfg mc = pc; if (old) mc.by_id.clear();
    std::unique_ptr<u8[]> b(new u8[img.size() ? img.size() : 1]); memcpy(b.get(), img.data(), img.size());
    size_t pos = 0, n = 0;
    for (;;) {
        pev_event e; memset(&e, (int) sim.d(2) ? 0xa5 : 0, sizeof e);
        int r = LIB(pev_read(&e, b.get() + pos, b.get() + img.size(), &cfg.c)); sim.h((u64) r);
        PRec m; size_t sz = 0; u64 tsc = 0; int w = pparse(img, pos, mc, m, sz, tsc);
        LOG("%s read at %zu of %zu: %d, reference %d type %u size %zu\n", what, pos, img.size(), r, w, m.type, sz); sim.count("records-read");
        if (w < 0) {
            if (r >= 0) sim.fail("accepted", "%s: the reader accepts %d bytes at offset %zu of %zu where there is no valid record (type %u size %zu)", what, r, pos, img.size(), m.type, sz);
            if (r != -pte_eos && r != -pte_nosync && r != -pte_bad_packet && r != -pte_bad_config) sim.fail("error", "%s: reading at offset %zu of %zu fails with %s", what, pos, img.size(), errname(r));
            if (img.size() - pos < 8 && r != -pte_eos) sim.fail("error", "%s: %zu bytes left and the reader reports %s", what, img.size() - pos, errname(r));
            if (pos < whole && n < recs.size()) sim.fail("model", "%s: reference cannot read record %zu at %zu", what, n, pos);
            break;
        }
        if (r < 0) sim.fail("rejected", "%s: the reader rejects the record at offset %zu of %zu (type %u size %zu fields %llx) with %s", what, pos, img.size(), m.type, sz, X(m.st), errname(r));
        if ((size_t) r != sz) sim.fail("size", "%s: reading the record at offset %zu (type %u) consumes %d bytes instead of %zu", what, pos, m.type, r, sz);
        if (e.type != m.type || e.misc != m.misc) sim.fail("header", "%s: type %u misc %x instead of %u, %x", what, e.type, e.misc, m.type, m.misc);
        if (!w) {
            const u8 *lo = b.get() + pos, *hi = lo + sz;
            auto in = [&](const void *p, size_t k, const char *f) { if (!p) sim.fail("field", "%s: no %s in the record at offset %zu (fields %llx)", what, f, pos, X(m.st)); if ((const u8 *) p < lo || (const u8 *) p + k > hi) sim.fail("outside", "%s: %s of the record at offset %zu lies outside it", what, f, pos); };
            if (m.type != 14) { in(e.record.mmap, m.body.size(), "payload"); if (memcmp(e.record.mmap, m.body.data(), m.body.size())) sim.fail("payload", "%s: payload of the record at offset %zu (type %u) is not what was written", what, pos, m.type); }
            if (pstring(m.type)) { const char *s = m.type == 1 ? e.record.mmap->filename : m.type == 3 ? e.record.comm->comm : e.record.mmap2->filename; in(s, m.str.size() + 1, "string"); if (m.str != s) sim.fail("string", "%s: name of the record at offset %zu differs", what, pos); }
            auto fld = [&](const void *p, u64 flag, u64 v, size_t k, const char *f) {
                if (!(m.st & flag)) { if (p) sim.fail("field", "%s: there is no %s in the record at offset %zu (fields %llx)", what, f, pos, X(m.st)); return; }
                in(p, k, f); u64 g = gl((const u8 *) p, (int) k); if (g != v) sim.fail("field", "%s: %s of the record at offset %zu is %llx instead of %llx (fields %llx)", what, f, pos, X(g), X(v), X(m.st));
            };
            fld(e.sample.pid, ST_TID, m.pid, 4, "pid"); fld(e.sample.tid, ST_TID, m.tid, 4, "tid"); fld(e.sample.time, ST_TIME, m.time, 8, "time"); fld(e.sample.id, ST_ID, m.id, 8, "id");
            fld(e.sample.stream_id, ST_STREAM, m.stream_id, 8, "stream id"); fld(e.sample.cpu, ST_CPU, m.cpu, 4, "cpu"); fld(e.sample.identifier, ST_IDENT, m.identifier, 8, "identifier");
            if (e.sample.tsc != tsc) sim.fail("tsc", "%s: time %llx is %llx instead of %llx (shift %u mult %u zero %llx)", what, X(m.time), X(e.sample.tsc), X(tsc), pc.shift, pc.mult, X(pc.zero));
            if (n < recs.size() && pos + sz <= whole && !old) { auto &o = recs[n]; if (o.type != m.type || o.body != m.body || o.str != m.str || o.st != m.st || (o.st & ST_TIME && o.time != m.time)) sim.fail("model", "%s: reference reads record %zu differently", what, n); }
        }
        pos += sz; n++;
    }
    if (!whole) return;
    if (n < recs.size() && pos < whole) sim.fail("lost", "%s: only %zu of %zu records were read", what, n, recs.size());
}
static void pev()
{
    PCfg pc; pc.sample_type = gen_st(); if (sim.d(2)) pc.sample_type |= ST_IDENT;
    if (sim.d(3) == 0) { int n = (int) sim.range(1, 4); std::set<u64> ids; for (int k = 0; k < n; k++) ids.insert(sim.d(2) ? sim.d(1000) + 1 : sim.d64()); for (u64 i : ids) pc.by_id.push_back({i, gen_st() | (sim.p(1, 12) ? 0 : ST_IDENT)}); for (size_t k = 1; k < pc.by_id.size(); k++) std::swap(pc.by_id[k], pc.by_id[sim.d((u32) k + 1)]); }
    pc.shift = (u16) sim.d(33); pc.mult = sim.d(4) ? (u32) sim.dbits(1 + sim.d(32)) : (u32) val64(); if (!pc.mult) pc.mult = 1; pc.zero = sim.d(3) ? sim.dbits(1 + sim.d(64)) : 0;
    PevCfg cfg(pc);
    // time conversion
    for (int k = 0; k < 4; k++) {
        u64 v = val64(), g = 0; int r = LIB(pev_time_to_tsc(&g, v, &cfg.c));
        if (r || g != ptsc(pc, v)) sim.fail("tsc", "time %llx is %llx (%d) instead of %llx (shift %u mult %u zero %llx)", X(v), X(g), r, X(ptsc(pc, v)), pc.shift, pc.mult, X(pc.zero));
        r = LIB(pev_time_from_tsc(&g, v, &cfg.c));
        if (r || g != ptime(pc, v)) sim.fail("time", "tsc %llx is time %llx (%d) instead of %llx (shift %u mult %u zero %llx)", X(v), X(g), r, X(ptime(pc, v)), pc.shift, pc.mult, X(pc.zero));
    }
    u32 cap = sim.d(4) ? 4096 * sim.range(1, 20) : sim.d(400); std::unique_ptr<u8[]> buf(new u8[cap ? cap : 1]); memset(buf.get(), (int) sim.d(256), cap);
    std::vector<u8> model, orig(buf.get(), buf.get() + cap); std::vector<PRec> recs; u32 n = sim.range(1, 24);
    for (u32 k = 0; k < n; k++) {
        PRec r = gen_rec(pc); bool badcfg = false;
        // sometimes with fields the configuration does not announce
        if (sim.p(1, 20)) { u64 f = 1ull << sim.pick(std::vector<u32>{1, 2, 6, 7, 9, 16}); r.st ^= f; }
        { u64 id = r.identifier, want = pc.sample_type; if (r.st & ST_IDENT) for (auto &e : pc.by_id) if (e.first == id) want = e.second & ST_IDENT ? e.second : ~0ull; badcfg = want != r.st; }
        // a record without identifier whose last field looks like one is ambiguous
        std::vector<u8> w = pbytes(r); bool fits = w.size() <= 65535 && r.str.size() < 65535; if (!badcfg && fits) { PRec q; size_t sz; u64 tsc; if (pparse(w, 0, pc, q, sz, tsc) || q.st != r.st) continue; }
        if (!badcfg && fits && !(r.st & ST_IDENT) && !pc.by_id.empty()) { bool amb = false; for (auto &e : pc.by_id) amb |= w.size() >= 16 && e.first == gl(w.data() + w.size() - 8, 8); if (amb) continue; }
        size_t room = sim.p(1, 10) ? sim.d((u32) std::min<size_t>(cap - model.size(), w.size() + 4) + 1) : cap - model.size();
        Ev e(r); u8 *at = buf.get() + model.size();
        if (sim.p(1, 30)) { e.e.type = sim.d(2) ? 8 + sim.d(2) : 16 + sim.d(1000); int x = LIB(pev_write(&e.e, at, at + room, &cfg.c)); if (x >= 0) sim.fail("accepted", "a record of type %u is written", e.e.type); continue; }
        // an exactly sized buffer of its own, so that writing beyond it does not go unseen
        std::unique_ptr<u8[]> own(new u8[room ? room : 1]); memcpy(own.get(), at, room);
        int x = LIB(pev_write(&e.e, own.get(), own.get() + room, &cfg.c)); sim.h((u64) x); sim.count("records-written");
        LOG("write type %u fields %llx string %zu: %d (%zu bytes, room %zu)\n", r.type, X(r.st), r.str.size(), x, w.size(), room);
        if (badcfg || !fits || room < w.size()) {
            if (x >= 0) sim.fail("accepted", "a record of %zu bytes (type %u fields %llx, configured %llx) is written into %zu bytes: %d", w.size(), r.type, X(r.st), X(pc.sample_type), room, x);
            if (fits && !badcfg && x != -pte_eos) sim.fail("error", "a record of %zu bytes into %zu bytes fails with %s", w.size(), room, errname(x));
            sim.count(!fits ? "too-big" : badcfg ? "wrong-fields" : "no-room"); continue;
        }
        if (x != (int) w.size()) sim.fail("write", "writing a record of %zu bytes (type %u fields %llx string %zu) returns %d", w.size(), r.type, X(r.st), r.str.size(), x);
        size_t cpu = ~(size_t) 0; if (r.st & ST_CPU) cpu = w.size() - (r.st & ST_IDENT ? 8 : 0) - 4;
        for (size_t j = 0; j < w.size(); j++) if (own[j] != w[j] && !(j >= cpu && j < cpu + 4)) sim.fail("bytes", "byte %zu of a record of type %u with fields %llx is %02x instead of %02x", j, r.type, X(r.st), own[j], w[j]);
        for (size_t j = w.size(); j < room; j++) if (own[j] != at[j]) sim.fail("outside", "writing a record of %zu bytes changes byte %zu", w.size(), j);
        memcpy(at, own.get(), room); model.insert(model.end(), at, at + w.size()); recs.push_back(r);
    }
    if (recs.size() > 2) sim.nontrivial = true;
    read_all(model, pc, false, model.size(), recs, "as written");
    if (!pc.by_id.empty() && sim.d(2)) read_all(model, pc, true, 0, {}, "older configuration");
    // storage faults
    u32 tries = sim.d(4);
    for (u32 k = 0; k < tries && !model.empty(); k++) {
        std::vector<u8> d = model; size_t whole = 0; const char *kind;
        switch (sim.d(7)) {
        case 0: d.resize(sim.d((u32) d.size() + 1)); whole = 0; kind = "truncated"; break;
        case 1: { u32 m = sim.range(1, 4); for (u32 j = 0; j < m; j++) d[sim.d((u32) d.size())] ^= (u8)(1u << sim.d(8)); kind = "flipped"; } break;
        case 2: { u32 at = sim.d((u32) d.size()); for (size_t j = at; j < d.size(); j++) d[j] = 0; kind = "torn"; } break;
        case 3: { u32 at = sim.d((u32) d.size()), m = sim.range(1, 16); u8 v = sim.d(2) ? 0 : 0xff; for (u32 j = 0; j < m && at + j < d.size(); j++) d[at + j] = sim.d(3) ? (u8) sim.d(256) : v; kind = "overwritten"; } break;
        case 4: { // a record that ends early, at the end of the file
            size_t at = 0; u32 skip = sim.d((u32) recs.size()); for (u32 j = 0; j < skip; j++) at += (size_t) gl(&d[at + 6], 2);
            u32 s = (u32) gl(&d[at + 6], 2); s = 8 + sim.d(std::min(s - 7, sim.d(2) ? s : 80u)); d[at + 6] = (u8) s; d[at + 7] = (u8)(s >> 8); d.resize(at + s); kind = "cut short"; } break;
        case 5: { // no zero after some byte of the last record
            size_t at = 0; u32 skip = sim.d((u32) recs.size()); for (u32 j = 0; j < skip; j++) at += (size_t) gl(&d[at + 6], 2);
            u32 s = (u32) gl(&d[at + 6], 2); d.resize(at + s); for (size_t j = at + 8 + sim.d(std::min(s - 7, 90u)); j < d.size(); j++) if (!d[j]) d[j] = (u8) sim.range(1, 255); kind = "no terminator"; } break;
        default: { // a wrong record size or type
            size_t at = 0; u32 skip = sim.d((u32) recs.size()); for (u32 j = 0; j < skip; j++) { size_t s = (size_t) gl(&d[at + 6], 2); at += s; }
            if (sim.d(2)) { u32 s = (u32) gl(&d[at + 6], 2); s = sim.d(2) ? s + sim.range(1, 24) : s - std::min(s, sim.range(1, 64)); if (sim.d(6) == 0) s = sim.d(65536); d[at + 6] = (u8) s; d[at + 7] = (u8)(s >> 8); } else d[at] = (u8) sim.d(24);
            kind = "bad header"; } break;
        }
        sim.count(kind); read_all(d, pc, false, whole, {}, kind);
    }
}
SCENARIO("C26", pev, "sideband record writer and reader");
