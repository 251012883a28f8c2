// C24: the merge of sideband streams.  Streams of our own behind the decoder interface, and perf streams seen through what is printed.
#include "sb_world.h"
#include <cstring>
#include <memory>

enum St { WAIT, FETCHING, READY, DUE, RETIRED, GONE, FREED };
struct Strm {
    int id; bool primary, nofetch = false, noapply = false, noprint = false, nodtor = false; std::vector<u64> tsc; size_t pos = 0; u64 cur = 0; St st = WAIT; u64 nf = 0, na = 0, np = 0; s64 failf = -1, faila = -1, failp = -1, spawn = -1; int err = 0, errf = 0; bool printed = false, round2 = false;
};
struct Merge {
    std::vector<std::unique_ptr<Strm>> v; pt_sb_session *s = nullptr; const pt_event *ev = nullptr; pt_event want; FILE *out = nullptr; u32 flags = 0; pt_image **pimg = nullptr; pt_image *img = nullptr; Strm *cur = nullptr; bool init = false, dump = false; u64 dumptsc = 0, applied = 0, spawned = 0; u32 kind = 0; u64 base = 0;
    bool drops(const Strm *x) const { return (x->noprint && out) || (x->noapply && !dump && (!out || x->printed)); }      // about to be dropped for want of a callback
    Strm *due() { Strm *b = nullptr; for (auto &x : v) if (x->st == READY && !drops(x.get()) && (!b || x->cur < b->cur)) b = x.get(); u64 lim = dump ? dumptsc : want.tsc; return b && b->cur <= lim ? b : nullptr; }
    bool ready(const Strm *x) { Strm *b = due(); return b && x->st == READY && x->cur == b->cur; }
    int add();
};
static Merge *mg;
static Strm *strm(void *p) { for (auto &x : mg->v) if (x.get() == p) return p == nullptr ? nullptr : x.get(); sim.fail("private", "callback for an unknown decoder"); }
static int cb_fetch(pt_sb_session *s, uint64_t *tsc, void *p)
{
    Strm *x = strm(p); if (s != mg->s) sim.fail("session", "fetch for another session"); sim.h(x->id * 3 + 1); LOG("  fetch %d\n", x->id);
    if (mg->init ? x->st != WAIT : x->st != FETCHING) sim.fail("fetch", "stream %d asked to fetch a record %s", x->id, x->st == READY ? "before its record was used" : x->st >= RETIRED ? "after its end" : "out of turn");
    if (!tsc) sim.fail("fetch", "no place for the time stamp");
    x->nf++; if ((s64) x->nf - 1 == x->failf) { x->st = mg->init || mg->dump || x->errf != -pte_eos ? GONE : RETIRED; return x->errf; }
    if (x->pos >= x->tsc.size()) { x->st = mg->init || mg->dump ? GONE : RETIRED; x->round2 = false; return -pte_eos; }
    x->cur = *tsc = x->tsc[x->pos++]; x->st = READY; x->printed = false; x->round2 = false; return 0;
}
static int cb_print(pt_sb_session *s, FILE *f, uint32_t flags, void *p)
{
    Strm *x = strm(p); if (s != mg->s) sim.fail("session", "print for another session"); sim.h(x->id * 3 + 2); LOG("  print %d tsc %llx\n", x->id, X(x->cur));
    if (mg->init || !mg->out) sim.fail("print", "stream %d printed without being asked to", x->id);
    if (f != mg->out || flags != mg->flags) sim.fail("print", "stream or flags changed on the way");
    if (x->st != READY || x->printed) sim.fail("print", "stream %d: record printed twice or out of turn", x->id);
    if (!mg->ready(x)) sim.fail("order", "stream %d printed at %llx out of order", x->id, X(x->cur));
    x->np++; if ((s64) x->np - 1 == x->failp) { x->st = GONE; return x->err; }
    x->printed = true; if (mg->dump) { x->st = FETCHING; mg->applied++; if (x->nofetch) x->st = GONE; }
    return 0;
}
static int cb_apply(pt_sb_session *s, pt_image **image, const pt_event *e, void *p)
{
    Strm *x = strm(p); if (s != mg->s) sim.fail("session", "apply for another session"); sim.h(x->id * 3 + 3); LOG("  apply %d tsc %llx%s\n", x->id, X(x->cur), x->st == RETIRED ? " (retired)" : "");
    if (mg->init || mg->dump) sim.fail("apply", "stream %d applied without an event", x->id);
    if (!e || memcmp(e, &mg->want, sizeof *e)) sim.fail("event", "the event changed on the way");
    if (x->primary ? image != mg->pimg : image != nullptr) sim.fail("primary", "%s stream %d is given %s image", x->primary ? "primary" : "secondary", x->id, image ? "an" : "no");
    if (image && *image != mg->img) sim.fail("image", "stream %d is not given the current image", x->id);
    Strm *d = mg->due(); int r = 0;
    if (x->st != READY && x->st != RETIRED) sim.fail("apply", "stream %d applied after %s", x->id, x->st == GONE ? "it failed" : "its turn");
    if (d && !(x->st == RETIRED)) {
        if (!mg->ready(x)) sim.fail("order", "stream %d applied at %llx before stream %d at %llx", x->id, X(x->cur), d->id, X(d->cur));
        if (mg->out && !x->printed) sim.fail("print", "record of stream %d applied without being printed", x->id);
        mg->applied++; x->st = FETCHING; if (x->nofetch) x->st = GONE;
    } else {
        if (d) sim.fail("order", "ended stream %d is given the event before stream %d applied %llx", x->id, d->id, X(d->cur));
        if (x->round2) sim.fail("apply", "stream %d is given the event twice", x->id);
        x->round2 = true; sim.count("postponed");
    }
    x->na++; if (image && sim.d(3) == 0) { *image = mg->img = (pt_image *) (uintptr_t)(0x1000 + sim.d(100) * 8); }
    if ((s64) x->na == x->spawn) { mg->spawned++; (void) mg->add(); }
    if ((s64) x->na - 1 == x->faila) { x->st = GONE; r = x->err; }
    else if (sim.d(9) == 0) r = 1 + (int) sim.d(5);
    return r;
}
static void cb_dtor(void *p) { Strm *x = strm(p); LOG("  dtor %d\n", x->id); if (x->st == FREED) sim.fail("dtor", "stream %d destroyed twice", x->id); if (mg->s && !mg->init && x->st != GONE) sim.fail("dtor", "stream %d destroyed while in use", x->id); if (mg->init && x->st != GONE && x->st != WAIT) sim.fail("dtor", "stream %d destroyed while in use", x->id); x->st = FREED; }
int Merge::add()
{
    v.emplace_back(new Strm); Strm *x = v.back().get(); x->id = (int) v.size(); x->primary = sim.d(2); u32 n = sim.d(8) ? sim.d(14) : 0; u64 t = base + sim.d(20);
    for (u32 k = 0; k < n; k++) {
        switch (sim.d(8)) { case 0: break; case 1: t += 1; break; case 2: t = sim.d(30) < t ? t - sim.d(30) : 0; break; case 3: t += 5000; break; default: t += sim.d(60); break; }
        x->tsc.push_back(sim.d(12) == 0 ? 0 : sim.d(60) == 0 ? ~0ull - sim.d(2) : t); }
    static const int errs[] = {-pte_internal, -pte_nomem, -pte_bad_packet, -pte_eos, -pte_nosync, -1000}; x->err = errs[sim.d(6)]; x->errf = errs[sim.d(6)];
    if (sim.d(6) == 0) x->failf = (s64) sim.d(n + 1); if (sim.d(6) == 0) x->faila = (s64) sim.d(n * 2 + 1); if (sim.d(10) == 0) x->failp = (s64) sim.d(n + 1); if (v.size() < 6 && sim.d(10) == 0) x->spawn = 1 + sim.d(n + 1);
    if (sim.d(40) == 0) x->nofetch = true; if (sim.d(40) == 0) x->noapply = true; if (sim.d(40) == 0) x->noprint = true; if (sim.d(20) == 0) x->nodtor = true;
    pt_sb_decoder_config c; memset(&c, 0, sizeof c); c.size = sizeof c; c.fetch = x->nofetch ? nullptr : cb_fetch; c.apply = x->noapply ? nullptr : cb_apply; c.print = x->noprint ? nullptr : cb_print; c.dtor = x->nodtor ? nullptr : cb_dtor; c.priv = x; c.primary = x->primary;
    int r = LIB(pt_sb_alloc_decoder(s, &c)); if (r) sim.fail("setup", "pt_sb_alloc_decoder: %s", errname(r)); return r;
}
static void merge_own()
{
    Merge m; mg = &m; struct End { ~End() { if (mg && mg->s) { auto *s = mg->s; mg->s = nullptr; pt_sb_free(s); } mg = nullptr; } } end; m.kind = sim.d(3); m.base = sim.d(100);
    m.s = LIB(pt_sb_alloc(nullptr)); if (!m.s) sim.fail("setup", "no session"); char *mem = nullptr; size_t memn = 0; struct F { FILE *f; char *&m; ~F() { fclose(f); free(m); } } f{open_memstream(&mem, &memn), mem};
    auto init = [&]() { m.init = true; for (auto &x : m.v) if (x->st == WAIT && x->nofetch) x->st = GONE; int r = LIB(pt_sb_init_decoders(m.s)); m.init = false; if (r) sim.fail("init", "pt_sb_init_decoders: %s", errname(r)); for (auto &x : m.v) if (x->st == WAIT) sim.fail("init", "stream %d was not asked for its first record", x->id); };
    for (u32 n = 1 + sim.d(5), k = 0; k < n; k++) { m.add(); if (sim.d(6) == 0) init(); }
    init(); u64 t = m.base; u32 n = 2 + sim.d(30), events = 0; m.img = nullptr;
    for (u32 k = 0; k < n; k++) {
        switch (sim.d(10)) { case 0: break; case 1: if (t > 50) t -= sim.d(50); break; case 2: t += 10000; break; case 3: case 4: { std::vector<u64> c; for (auto &x : m.v) if (x->st == READY) c.push_back(x->cur); if (!c.empty()) { u64 a = sim.pick(c); t = a + sim.d(3) - (a ? 1 : 0); } break; } default: t += sim.d(100); break; }
        if (sim.d(12) == 0 && m.v.size() < 8) { m.add(); init(); } if (m.spawned && sim.d(2)) { init(); m.spawned = 0; }
        m.out = sim.d(3) ? nullptr : f.f; m.flags = (u32) sim.dbits(32);
        auto limit = [&]() { for (auto &x : m.v) if (x->st == READY && x->cur <= t && !(m.out && x->noprint) && !(x->noapply && !m.dump)) sim.fail("late", "record of stream %d at %llx was not used at %llx", x->id, X(x->cur), X(t)); for (auto &x : m.v) { if (x->st == FETCHING) sim.fail("lost", "stream %d was not asked for its next record", x->id); } };
        // streams without a callback are dropped once it is needed
        if (sim.d(8) == 0) { m.dump = true; m.dumptsc = t; m.out = f.f; LOG("dump up to %llx\n", X(t)); int r; 
            for (auto &x : m.v) if (x->noprint && x->st == READY && x->cur <= t) x->st = GONE;
            r = LIB(pt_sb_dump(m.s, f.f, m.flags, t)); if (r) sim.fail("dump", "pt_sb_dump: %s", errname(r)); limit(); m.dump = false; sim.count("dumps"); continue; }
        pt_event e; memset(&e, 0, sizeof e); e.type = (pt_event_type) sim.d(40); e.tsc = t; e.has_tsc = sim.d(2); e.variant.async_branch.from = sim.d64(); size_t size = sizeof e; std::unique_ptr<u8[]> big; const pt_event *pe = &e;
        switch (sim.d(6)) { case 0: size = offsetof(pt_event, reserved) + sim.d((u32)(sizeof e - offsetof(pt_event, reserved))); big.reset(new u8[size]); memcpy(big.get(), &e, size); pe = (pt_event *) big.get(); break; case 1: size = sizeof e + 1 + sim.d(64); big.reset(new u8[size]); memset(big.get(), 0xaa, size); memcpy(big.get(), &e, sizeof e); pe = (pt_event *) big.get(); break; }
        memset(&m.want, 0, sizeof m.want); memcpy(&m.want, pe, std::min(size, sizeof m.want));
        if (sim.d(20) == 0) { size_t bad = sim.d(offsetof(pt_event, reserved)); int r = LIB(pt_sb_event(m.s, &m.img, pe, bad, nullptr, 0)); if (r != -pte_invalid) sim.fail("event", "event of %zu bytes accepted: %s", bad, errname(r)); }
        for (auto &x : m.v) { x->round2 = false; x->printed = false; }
        pt_image *given = m.img; m.pimg = &given; LOG("event %llx%s\n", X(t), m.out ? " printing" : ""); sim.h(t);
        int r = LIB(pt_sb_event(m.s, &given, pe, size, m.out, m.flags)); if (r) sim.fail("event", "pt_sb_event: %s", errname(r));
        if (given != m.img) sim.fail("image", "the image set by the primary stream is not returned"); for (auto &x : m.v) if ((x->noapply && (x->st == READY || x->st == RETIRED)) || (x->noprint && m.out && x->st == READY && x->cur <= t)) x->st = GONE;
        limit();
        for (auto &x : m.v) if ((x->st == READY || x->st == RETIRED) && !x->round2) sim.fail("missed", "stream %d did not see the event at %llx", x->id, X(t));
        events++; 
    }
    sim.count("events", events); sim.count("records-applied", m.applied); sim.simtime = t; sim.nontrivial = m.applied > 3 && m.v.size() > 1;
    auto *s = m.s; m.s = nullptr; LIB(pt_sb_free(s)); for (auto &x : m.v) if (x->st != FREED && !x->nodtor) sim.fail("dtor", "stream %d was not destroyed with the session", x->id);
    mg = nullptr; seam.check_released("session freed");
}

SCENARIO("C24a", merge_own, "sideband streams behind the decoder interface");

// ---- perf streams: which records are applied when, what is said about them, and what they leave behind
extern MSecP sb_section(const std::string &f, u64 off, u64 size);
struct RCtx { u32 pid = 0; MImg mm; int abi = 0; bool taint = false; };
typedef std::shared_ptr<RCtx> RCtxP;
struct RItem { size_t at, size; PRec r; bool unknown; u64 eff; };
struct RStream { SbStream *s; std::vector<RItem> it; size_t pos = 0; bool dead = false; int end = 0; size_t endat = 0; const RItem *head() const { return dead || pos >= it.size() ? nullptr : &it[pos]; } };
struct Want { std::string file; u64 off; int code; bool opt; };
struct RSb {
    SbOs &os; SbSess &ss; bool notify; std::vector<RStream> st; std::map<u32, RCtxP> ctx; std::vector<Want> want; bool faulted = false, ambiguous = false; u64 applied = 0, ends = 0; std::vector<std::pair<pt_sb_context *, RCtxP>> held;
    RSb(SbOs &o, SbSess &s, bool n) : os(o), ss(s), notify(n) {}
    ~RSb() { for (auto &h : held) (void) pt_sb_ctx_put(h.first); }
    void load(SbStream &s);
    RCtxP get(u32 pid) { auto &c = ctx[pid]; if (!c) { c = std::make_shared<RCtx>(); c->pid = pid; c->mm = os.kernel; c->taint = faulted; } return c; }
    void note(RStream &s, size_t at, int code, bool opt = false) { want.push_back({s.s->file, at, code, opt || faulted}); if (notify && ss.answer < 0) { bool said = !opt && !faulted; for (auto &n : ss.notes) if (n.file == s.s->file && n.off == at) said = true; if (said) s.dead = true; } }
    void fetched(RStream &s) { if (!s.dead && s.pos >= s.it.size()) { ends++; if (s.end < 0) want.push_back({s.s->file, s.endat, -1, false}); } }
    void use(RStream &s, bool apply) { const RItem &i = s.it[s.pos++]; if (apply) { this->apply(s, i); applied++; } fetched(s); }
    void apply(RStream &s, const RItem &i); void map(RStream &s, const RItem &i);
    bool run(u64 tsc, bool apply); void follow(const char *p, size_t n, u32 flags, u64 tsc, bool apply, bool rest = true); void check(u64 tsc, bool all); void notes();
};
static u64 lg(const std::vector<u8> &b, size_t at, int n) { u64 v = 0; for (int k = 0; k < n; k++) v |= (u64) b[at + k] << (8 * k); return v; }
void RSb::load(SbStream &s)
{
    RStream r; r.s = &s; auto &f = seam.files[s.file]->data; size_t e = s.end ? std::min(s.end, f.size()) : f.size(); std::vector<u8> b(f.begin() + s.begin, f.begin() + e); size_t at = 0;
    for (;;) {
        RItem i; size_t size = 0; u64 tsc = 0; i.at = at; int v = b.size() - at < 8 ? -1 : pparse(b, at, s.cfg, i.r, size, tsc);
        if (v < 0) { r.endat = at; r.end = b.size() - at < 8 ? 0 : lg(b, at + 6, 2) < 8 ? -1 : !lg(b, at, 4) || lg(b, at + 6, 2) > b.size() - at ? 0 : -1; break; }
        i.size = size; i.unknown = v == 1; i.eff = v == 1 ? 0 : os.eff(s, i.r); r.it.push_back(i); at += size; }
    LOG("  %s: %zu records, ends at %zx %s\n", s.file.c_str(), r.it.size(), r.endat, r.end ? "damaged" : ""); st.push_back(r);
}
void RSb::map(RStream &s, const RItem &i)
{
    auto &b = i.r.body; u32 pid = (u32) lg(b, 0, 4); u64 va = lg(b, 8, 8), len = lg(b, 16, 8), off = lg(b, 24, 8); RCtxP c = get(pid); std::string name = i.r.str, file;
    if (faulted) c->taint = true; LOG("  model map %s %llx len %llx at %llx pid %u\n", name.c_str(), X(off), X(len), X(va), pid);
    auto lost = [&](int code) { note(s, i.at, code, code < 0 && c->taint); if (len && va + len > va) World::add(c->mm, Ent{NOCR3, NOVM, va, len, 0, 0, nullptr}); else if (len) c->taint = true; };
    if (c->taint) note(s, i.at, -1, true);
    if (!name.empty() && name[0] == '[') { if (name != "[vdso]") return lost(ptse_section_lost); if (!c->abi || os.vdso[c->abi].empty()) return lost(-1); file = os.vdso[c->abi]; }
    else if (name == "//anon" || name.find(" (deleted)") != std::string::npos) return lost(ptse_section_lost);
    else file = os.root + name;
    auto f = seam.files.find(file); if (f == seam.files.end()) return lost(-1);
    auto &d = f->second->data; if (!c->abi && d.size() >= 16 && !memcmp(d.data(), "\177ELF", 4) && d[6] == 1) { if (d[4] == 2) c->abi = 1; else if (d[4] == 1 && d.size() >= 52) c->abi = d[18] == 62 && !d[19] ? 2 : d[18] == 3 && !d[19] ? 3 : 0; }
    if (off >= d.size()) return lost(-1);
    if (!len) { note(s, i.at, -1, true); return; }
    u64 size = std::min<u64>(len, d.size() - off); if (va + size <= va) { c->taint = true; note(s, i.at, -1, true); return; }
    if (off + len < off) { c->taint = true; note(s, i.at, -1, true); return; }
    if (faulted) note(s, i.at, -1, true);
    World::add(c->mm, Ent{NOCR3, NOVM, va, size, 0, 0, va >> 47 || (va + size) >> 47 ? nullptr : sb_section(file, off, size)}); if (off < 64) World::add(c->mm, Ent{NOCR3, NOVM, va, std::min<u64>(size, 64 - off), 0, 0, nullptr});      // file headers are no instructions
    if (size < len) { if (va + len > va) World::add(c->mm, Ent{NOCR3, NOVM, va + size, len - size, 0, 0, nullptr}); else c->taint = true; }
}
void RSb::apply(RStream &s, const RItem &i)
{
    const PRec &r = i.r; auto &b = r.body; bool prim = s.s->primary, out = r.misc >> 13 & 1; if (i.unknown) return; size_t before = want.size();
    auto touch = [&](u32 pid) { auto c = get(pid); if (faulted) { c->taint = true; note(s, i.at, -1, true); } };
    switch (r.type) {
    case 1: case 10: if ((r.misc & 7) != 1) map(s, i); break;
    case 2: note(s, i.at, ptse_lost); break;
    case 3: if (out) { auto o = ctx.find((u32) lg(b, 0, 4)); bool t = faulted; if (o != ctx.end()) ctx.erase(o); auto c = get((u32) lg(b, 0, 4)); c->taint = t; if (faulted) note(s, i.at, -1, true); } break;
    case 7: { u32 pid = (u32) lg(b, 0, 4), ppid = (u32) lg(b, 4, 4), tid = (u32) lg(b, 8, 4); if (pid == ppid) break; if (pid != tid) { note(s, i.at, -1); break; }
        ctx.erase(pid); auto c = get(pid); auto p = ctx.find(ppid); if (p != ctx.end()) { c->mm = p->second->mm; c->taint |= p->second->taint; } if (faulted) { c->taint = true; note(s, i.at, -1, true); } } break;
    case 11: if (prim && (lg(b, 16, 8) & 1)) note(s, i.at, ptse_trace_lost); break;
    case 12: if (prim) touch((u32) lg(b, 0, 4)); break;
    case 14: if (prim && !out) { if (!(r.st & 2)) note(s, i.at, -1); else touch(r.pid); } break;
    case 15: if (prim) { if (out) touch((u32) lg(b, 0, 4)); else if (r.st & 2) touch(r.pid); } break;
    }
    (void) before;
}
// Without printing we do not know which of two records at the same time comes first.
bool RSb::run(u64 tsc, bool app)
{
    for (;;) { RStream *m = nullptr; bool tie = false; for (auto &s : st) { auto *h = s.head(); if (!h) continue; if (!m || h->eff < m->head()->eff) { m = &s; tie = false; } else if (h->eff == m->head()->eff) tie = true; } if (!m || m->head()->eff > tsc) return true; if (tie) { ambiguous = true; sim.count("ties"); } use(*m, app); }
}
static std::string fmt(const char *f, ...) { char b[700]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); return n < (int) sizeof b ? b : "?"; }
static std::string compact(const RItem &i)
{
    const PRec &r = i.r; auto &b = r.body; auto w = [&](int k) { return (unsigned) lg(b, 4 * k, 4); }; auto q = [&](int k) { return (unsigned long long) lg(b, 8 * k, 8); }; bool out = r.misc >> 13 & 1; std::string s;
    if (i.unknown) s = fmt("UNKNOWN (%x, %x)", r.type, r.misc);
    else switch (r.type) {
    case 1: s = fmt("PERF_RECORD_MMAP  %x/%x, %llx, %llx, %llx, %s", w(0), w(1), q(1), q(2), q(3), r.str.c_str()); break;
    case 2: s = fmt("PERF_RECORD_LOST  %llx, %llx", q(0), q(1)); break;
    case 3: s = fmt("PERF_RECORD_COMM%s  %x/%x, %s", out ? ".EXEC" : "", w(0), w(1), r.str.c_str()); break;
    case 4: s = fmt("PERF_RECORD_EXIT  %x/%x, %x/%x, %llx", w(0), w(2), w(1), w(3), q(2)); break;
    case 5: s = fmt("PERF_RECORD_THROTTLE  %llx, %llx, %llx", q(0), q(1), q(2)); break;
    case 6: s = fmt("PERF_RECORD_UNTHROTTLE  %llx, %llx, %llx", q(0), q(1), q(2)); break;
    case 7: s = fmt("PERF_RECORD_FORK  %x/%x, %x/%x, %llx", w(0), w(2), w(1), w(3), q(2)); break;
    case 10: s = fmt("PERF_RECORD_MMAP2  %x/%x, %llx, %llx, %llx, %x, %x, %llx, %llx, %x, %x, %s", w(0), w(1), q(1), q(2), q(3), w(8), w(9), q(5), q(6), w(14), w(15), r.str.c_str()); break;
    case 11: s = fmt("PERF_RECORD_AUX%s  %llx, %llx, %llx", q(2) & 1 ? ".TRUNCATED" : "", q(0), q(1), q(2)); break;
    case 12: s = fmt("PERF_RECORD_ITRACE_START  %x/%x", w(0), w(1)); break;
    case 13: s = fmt("PERF_RECORD_LOST_SAMPLES  %llx", q(0)); break;
    case 14: s = fmt("PERF_RECORD_SWITCH.%s", out ? "OUT" : "IN"); break;
    case 15: s = fmt("PERF_RECORD_SWITCH_CPU_WIDE.%s  %x/%x", out ? "OUT" : "IN", w(0), w(1)); break;
    }
    u64 st = i.unknown ? 0 : r.st; s += "  {"; if (st & 2) s += fmt(" %x/%x", r.pid, r.tid); if (st & 4) s += fmt(" %llx", X(r.time)); if (st & 0x40) s += fmt(" %llx", X(r.id)); if (st & 0x80) s += fmt(" cpu-%x", r.cpu); if (st & 0x200) s += fmt(" %llx", X(r.stream_id)); if (st & 0x10000) s += fmt(" %llx", X(r.identifier));
    return s + " }";
}
// The printed lines tell which records were used and in which order.
void RSb::follow(const char *p, size_t n, u32 flags, u64 tsc, bool app, bool rest)
{
    const char *e = p + n;
    while (p < e) {
        const char *q = (const char *) memchr(p, '\n', (size_t)(e - p)); if (!q) sim.fail("print", "incomplete line"); std::string l(p, q); p = q + 1;
        u64 lo = ~0ull; for (auto &s : st) if (s.head()) lo = std::min(lo, s.head()->eff);
        RStream *m = nullptr; std::string f = l.substr(0, l.find(':')); for (auto &s : st) if (s.s->file == f) m = &s;
        if (!m) sim.fail("print", "line of no stream: %s", l.c_str()); auto *h = m->head(); if (!h) sim.fail("print", "%s: no record expected: %s", f.c_str(), l.c_str());
        std::string w = fmt("%s:%016llx  ", f.c_str(), X(h->at)); if ((flags & ptsbp_tsc) && !h->unknown && (h->r.st & 4)) w += fmt("%016llx  ", X(h->eff)); if (flags & ptsbp_compact) w += compact(*h);
        if (l.compare(0, w.size(), w)) sim.fail("print", "printed '%s', expected '%s'", l.c_str(), w.c_str());
        if (l != w) sim.fail("print", "printed '%s', expected '%s'", l.c_str(), w.c_str());
        if (h->eff > lo) sim.fail("order", "%s:%zx at %llx used before a record at %llx", f.c_str(), h->at, X(h->eff), X(lo));
        if (h->eff > tsc) sim.fail("early", "%s:%zx at %llx used at %llx", f.c_str(), h->at, X(h->eff), X(tsc));
        use(*m, app);
    }
    if (rest) for (auto &s : st) if (s.head() && s.head()->eff <= tsc) sim.fail("late", "%s:%zx at %llx not used at %llx", s.s->file.c_str(), s.head()->at, X(s.head()->eff), X(tsc));
}
void RSb::notes()
{
    if (!notify) { if (!ss.notes.empty()) sim.fail("notification", "notification without notifier"); want.clear(); return; }
    std::vector<bool> used(want.size());
    for (auto &n : ss.notes) { bool ok = false; for (int pass = 0; pass < 2 && !ok; pass++) for (size_t k = 0; k < want.size() && !ok; k++) { auto &w = want[k]; if (w.file != n.file || w.off != n.off || (used[k] && ss.answer >= 0) || (!pass && used[k])) continue; if (w.code > 0 ? n.err != w.code && !(ss.answer < 0 && n.err == ss.answer) && !(w.opt && n.err < 0) : n.err >= 0) continue; used[k] = true; ok = true; }
        if (!ok && !ambiguous) sim.fail("notification", "unexpected notification %d for %s:%llx", n.err, n.file.c_str(), X(n.off)); }
    for (size_t k = 0; k < want.size(); k++) if (!used[k] && !want[k].opt && !ambiguous) sim.fail("notification", "%s:%llx: no notification (%d expected)", want[k].file.c_str(), X(want[k].off), want[k].code);
    sim.count("notifications", ss.notes.size()); ss.notes.clear(); want.clear();
}
void RSb::check(u64 tsc, bool all)
{
    if (ambiguous) return;
    auto one = [&](const RCtxP &c, pt_sb_context *x) { char w[80]; snprintf(w, sizeof w, "tsc %llx context %u", X(tsc), c->pid); pt_image *img = LIB(pt_sb_ctx_image(x)); if (!img) sim.fail("context", "context without image"); sample_image(img, c->mm, all, w); sim.count("contexts-checked"); };
    std::vector<u32> v; for (auto &c : ctx) v.push_back(c.first);
    for (size_t k = 0; k < (all ? v.size() : 2) && !v.empty(); k++) {
        u32 pid = all ? v[k] : sim.pick(v); auto &c = ctx[pid]; if (c->taint) continue; pt_sb_context *x = nullptr; int r = LIB(pt_sb_find_context_by_pid(&x, ss.s, pid)); if (r) sim.fail("context", "find: %s", errname(r)); if (!x) sim.fail("context", "tsc %llx: no context for process %u", X(tsc), pid); one(c, x);
        if (sim.d(12) == 0 && held.size() < 3) { r = LIB(pt_sb_ctx_get(x)); if (r) sim.fail("context", "get: %s", errname(r)); held.push_back({x, c}); } }
    if (!held.empty()) { auto &h = sim.pick(held); if (!h.second->taint) one(h.second, h.first); if (sim.d(8) == 0) { size_t k = sim.d((u32) held.size()); int r = LIB(pt_sb_ctx_put(held[k].first)); if (r) sim.fail("context", "put: %s", errname(r)); held.erase(held.begin() + (long) k); } }
    u32 no = 100 + sim.d(40); if (!ctx.count(no) && !faulted) { pt_sb_context *x = (pt_sb_context *) &no; int r = LIB(pt_sb_find_context_by_pid(&x, ss.s, no)); bool t = false; (void) t; if (r || (x && !st.empty())) sim.fail("context", "tsc %llx: a context for process %u, which no record names", X(tsc), no); }
}
static void damage(SbOs &os, SbStream &s)
{
    auto f = seam.files[s.file]->data; size_t e = s.end ? std::min(s.end, f.size()) : f.size(), n = e - s.begin; if (!n) return;
    for (u32 k = 1 + sim.d(3); k > 0; k--) { size_t a = s.begin + sim.d((u32) n); if (a >= f.size()) continue;
        switch (sim.d(7)) {
        case 0: f.resize(a); sim.count("damage.truncate"); break;
        case 1: f[a] ^= (u8)(1u << sim.d(8)); sim.count("damage.flip"); break;
        case 2: { size_t m = 1 + sim.d(60); for (size_t j = a; j < f.size() && j < a + m; j++) f[j] = (u8) sim.d(256); sim.count("damage.garbage"); } break;
        case 3: { size_t m = sim.d(2) ? f.size() : 1 + sim.d(200); for (size_t j = a; j < f.size() && j < a + m; j++) f[j] = 0; sim.count("damage.zero"); } break;
        case 4: { size_t m = 1 + sim.d(64); f.erase(f.begin() + (long) a, f.begin() + (long) std::min(f.size(), a + m)); sim.count("damage.cut"); } break;
        case 5: { size_t m = 1 + sim.d(64); std::vector<u8> x(m); for (auto &y : x) y = (u8) sim.d(256); f.insert(f.begin() + (long) a, x.begin(), x.end()); sim.count("damage.insert"); } break;
        default: { if (s.at.empty()) break; size_t r = s.begin + sim.pick(s.at); if (r + 8 > f.size()) break; f[r + sim.d(8)] = sim.d(2) ? (u8) sim.d(16) : (u8) sim.d(256); sim.count("damage.header"); } break; } }
    os.put(s.file, f);
}
static void merge_perf(bool dmg)
{
    seam.reset(); SbOs os; os.files(); os.streams(); bool tight = sim.d(3) == 0; if (tight) os.step = sim.d(3); SbSess ss; bool notify = sim.d(6); if (!ss.open(notify)) sim.fail("setup", "no session"); if (dmg && notify && sim.d(4) == 0) ss.answer = sim.d(3) ? -1 - (int) sim.d(60) : 1 + (int) sim.d(5);
    { pt_image *k = LIB(pt_sb_kernel_image(ss.s)); auto it = seam.files.find("/sim/kcore0"); if (it != seam.files.end() && sim.d(4)) { u64 off = sim.d(20), len = 1 + sim.d(200); auto s = sb_section("/sim/kcore0", off, len); int r = LIB(pt_image_add_file(k, "/sim/kcore0", off, len, nullptr, SbOs::kern)); if (r) sim.fail("setup", "kernel image: %s", errname(r)); World::add(os.kernel, Ent{NOCR3, NOVM, SbOs::kern, s->size, 0, 0, s}); } }
    int init = (int) sim.d((u32) os.st.size()); u32 np = 1 + sim.d(3); for (u32 k = 0; k < np; k++) { u32 pid = ++os.nextpid; os.procs[pid].pid = pid; os.procs[pid].mm = os.kernel; os.populate(init, pid, true); }
    for (size_t c = 0; c < os.run.size(); c++) { std::vector<u32> v{0}; for (auto &x : os.procs) v.push_back(x.first); os.tick(); os.sched((int) c, sim.pick(v)); }
    u32 n = sim.range(5, 60); for (u32 k = 0; k < n; k++) {
        os.tick(); int si = (int) sim.d((u32) os.st.size());
        if (sim.d(12) == 0) { std::vector<u8> b; le_put(b, sim.d(9), 8); le_put(b, sim.d(9), 8); os.rec(si, 2, 0, b); }
        else if (sim.d(16) == 0) { std::vector<u8> b; for (u32 j = sim.d(6); j > 0; j--) le_put(b, sim.d64(), 8); os.rec(si, 16 + sim.d(sim.d(2) ? 5 : 1000), (u16) sim.d(0x10000), b); }
        else os.action((int) sim.d((u32) os.run.size())); }
    os.finish(); std::vector<SbStream *> order; for (auto &s : os.st) order.push_back(&s);
    if (dmg) for (auto &s : os.st) if (sim.d(3)) damage(os, s);
    if (dmg && sim.d(3) == 0) { u32 m = sim.d((u32) os.nfiles); std::string f = os.root + (os.root.empty() ? "/sim/f" : "/sim/f") + std::to_string(m); if (seam.files.erase(f)) sim.count("damage.missing"); }
    RSb rs(os, ss, notify); std::vector<u64> effs; u32 damaged = 0;
    auto initd = [&]() { int r = LIB(pt_sb_init_decoders(ss.s)); if (r < 0) sim.fail("setup", "init: %s", errname(r)); };
    size_t fresh = 0; auto settle = [&]() { for (; fresh < rs.st.size(); fresh++) rs.fetched(rs.st[fresh]); rs.notes(); };
    for (auto &s : os.st) {
        bool faulty = dmg && sim.d(5) == 0, gone = dmg && sim.d(20) == 0; if (gone) { seam.files.erase(s.file); sim.count("damage.nofile"); } u64 fired = seam.fired; size_t fs = gone ? 0 : seam.files[s.file]->data.size(); bool bad = gone || s.begin > fs;
        if (faulty) { static const int fk[] = {F_OPEN, F_SEEK, F_READ_ERR, F_READ_EOF, F_ALLOC}; seam.arm_at((Fault) fk[sim.d(5)], sim.d(6)); }
        int r = ss.add(os, s); seam.disable_all(); bool hit = seam.fired != fired;
        if (r < 0 && !bad && !hit) sim.fail("load", "adding %s: %s", s.file.c_str(), errname(r));
        if (r >= 0 && bad) sim.fail("load", "%s %s and is accepted", s.file.c_str(), gone ? "does not exist" : "ends before its begin");
        if (r < 0) { damaged++; continue; }
        rs.load(s); for (auto &i : rs.st.back().it) effs.push_back(i.eff); damaged += rs.st.back().end < 0; if (sim.d(5) == 0) { initd(); settle(); } }
    initd(); settle(); char *mem = nullptr; size_t memn = 0; FILE *out = nullptr; struct C { FILE *&f; char *&m; ~C() { if (f) fclose(f); free(m); } } cl{out, mem}; u64 t = 0; pt_image *img = nullptr; bool print = sim.d(4), faults = dmg && sim.d(5) == 0; u32 ne = sim.range(2, 25);
    for (u32 k = 0; k <= ne; k++) {
        if (k == ne) t = ~0ull; else switch (sim.d(6)) { case 0: if (t > 100) t -= sim.d(100); break; case 1: case 2: case 3: if (!effs.empty()) { u64 a = sim.pick(effs); if (sim.d(3) && a < t) break; t = a + sim.d(3) - (a ? 1 : 0); } break; default: t += sim.d(2000); break; }
        bool dump = !dmg && print && sim.d(12) == 0; u32 flags = ptsbp_filename | ptsbp_file_offset | (dmg ? 0 : sim.d(2) * ptsbp_compact) | sim.d(2) * ptsbp_tsc;
        if (print) { out = open_memstream(&mem, &memn); } pt_event e; memset(&e, 0, sizeof e); e.type = (pt_event_type) sim.d(36); e.has_tsc = 1; e.tsc = t; e.variant.enabled.ip = sim.d(2) ? 0x10000 : 0x7f0000000000ull; if (sim.d(3) == 0) e.ip_suppressed = 1;
        LOG("%s %llx type %d\n", dump ? "dump" : "event", X(t), e.type); sim.h(t); u64 fired = seam.fired; if (faults && sim.d(3) == 0) { static const int fk[] = {F_OPEN, F_ALLOC, F_STAT, F_FSTAT, F_MMAP, F_READ_ERR, F_SEEK}; seam.arm_at((Fault) fk[sim.d(7)], sim.d(40)); }
        int r = dump ? LIB(pt_sb_dump(ss.s, out, flags, t)) : LIB(pt_sb_event(ss.s, &img, &e, sizeof e, out, flags)); seam.disable_all(); rs.faulted = seam.fired != fired; if (rs.faulted) sim.count("faulted-events");
        if (r < 0) sim.fail("event", "%s: %s", dump ? "pt_sb_dump" : "pt_sb_event", errname(r));
        if (print) { fflush(out); rs.follow(mem, memn, flags, t, !dump); fclose(out); out = nullptr; free(mem); mem = nullptr; } else rs.run(t, !dump);
        rs.notes(); rs.faulted = false; rs.check(t, k == ne ? sim.d(3) == 0 : sim.d(60) == 0); if (rs.ambiguous) break;
    }
    sim.count("records-applied", rs.applied); sim.count("streams-ended", rs.ends); sim.simtime = os.t; sim.nontrivial = rs.applied > 5 && (!dmg || damaged || faults); if (rs.ambiguous) sim.count("ambiguous-runs");
    while (!rs.held.empty() && sim.d(2)) { (void) LIB(pt_sb_ctx_put(rs.held.back().first)); rs.held.pop_back(); }
    if (rs.held.empty()) { ss.close(); seam.check_released("sideband session freed"); return; }
    if (ss.s) LIB(pt_sb_free(ss.s)); ss.s = nullptr; for (auto &h : rs.held) { if (!h.second->taint && !rs.ambiguous) sample_image(LIB(pt_sb_ctx_image(h.first)), h.second->mm, true, "kept context"); (void) LIB(pt_sb_ctx_put(h.first)); } rs.held.clear(); ss.close(); seam.check_released("sideband session freed");
}
static void c24b() { merge_perf(false); }
static void c25() { merge_perf(true); }
SCENARIO("C24", c24b, "perf sideband streams merge in time order");
SCENARIO("C25", c25, "damaged sideband streams");

// For the dump tool: the records of all streams against the lines it prints.
struct SbLines { SbSess ss; RSb r; u32 flags; SbLines(SbOs &os, u32 f) : r(os, ss, false), flags(f) { for (auto &s : os.st) r.load(s); } };
SbLines *sb_lines(SbOs &os, u32 flags) { return new SbLines(os, flags); }
void sb_lines_free(SbLines *l) { delete l; }
// false if the line is for a later time
bool sb_lines_line(SbLines *l, const std::string &s, u64 tsc) { std::string f = s.substr(0, s.find(':')); for (auto &x : l->r.st) if (x.s->file == f && x.head() && x.head()->eff > tsc) return false; std::string n = s + "\n"; l->r.follow(n.data(), n.size(), l->flags, tsc, false, false); return true; }
void sb_lines_time(SbLines *l, u64 tsc) { l->r.follow("", 0, l->flags, tsc, false); }
