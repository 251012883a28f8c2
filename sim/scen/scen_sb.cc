// C23, C24, C25: the sideband session.
#include "sb_world.h"
#include <cstring>

// ---- C23: which process's code a decoder is given
struct TrEv { u64 t; pt_event ev; bool user; u32 pid; MImgP mm; bool check; };
static pt_event event(int type, u64 tsc) { pt_event e; memset(&e, 0, sizeof e); e.type = (pt_event_type) type; e.has_tsc = 1; e.tsc = tsc; return e; }
static u64 uip() { return SbOs::user + sim.d(SbOs::ulen); }
static u64 kip() { return SbOs::kern + sim.d(0x1000); }
static pt_event in_user(u64 tsc)
{
    pt_event e;
    switch (sim.d(9)) {
    case 0: e = event(ptev_ptwrite, tsc); e.variant.ptwrite.ip = uip(); break; case 1: e = event(ptev_tick, tsc); e.variant.tick.ip = uip(); break; case 2: e = event(ptev_tsx, tsc); e.variant.tsx.ip = uip(); break;
    case 3: e = event(ptev_exec_mode, tsc); e.variant.exec_mode.ip = uip(); break; case 4: e = event(ptev_cbr, tsc); break; case 5: e = event(ptev_exstop, tsc); e.variant.exstop.ip = uip(); break; case 6: e = event(ptev_overflow, tsc); e.variant.overflow.ip = uip(); break;
    case 7: e = event(ptev_tip, tsc); e.variant.tip.ip = uip(); break; default: e = event(ptev_uintr, tsc); e.variant.uintr.ip = uip(); break; }
    if (e.type != ptev_cbr && e.type != ptev_tip && sim.d(4) == 0) e.ip_suppressed = 1;
    return e;
}
static pt_event in_kernel(u64 tsc)
{
    pt_event e;
    switch (sim.d(9)) {
    case 0: e = event(ptev_paging, tsc); break; case 1: e = event(ptev_tick, tsc); e.variant.tick.ip = kip(); break; case 2: e = event(ptev_async_branch, tsc); e.variant.async_branch.from = kip(); e.variant.async_branch.to = kip(); break; case 3: e = event(ptev_mwait, tsc); e.variant.mwait.ip = kip(); break;
    case 4: e = event(ptev_async_paging, tsc); e.variant.async_paging.ip = kip(); break; case 5: e = event(ptev_cbr, tsc); break; case 6: e = event(ptev_interrupt, tsc); e.variant.interrupt.ip = kip(); break; case 7: e = event(ptev_iflags, tsc); e.variant.iflags.ip = kip(); break; default: e = event(ptev_exec_mode, tsc); e.variant.exec_mode.ip = kip(); break; }
    if (e.type != ptev_cbr && e.type != ptev_paging && e.type != ptev_async_branch && sim.d(5) == 0) e.ip_suppressed = 1;
    return e;
}
static void setup_kernel(SbOs &os, SbSess &ss)
{
    pt_image *k = LIB(pt_sb_kernel_image(ss.s)); u64 va = SbOs::kern;
    for (int i = 0; i < 3; i++) { std::string f = "/sim/kcore" + std::to_string(i); auto it = seam.files.find(f); if (it == seam.files.end()) continue; extern MSecP sb_section(const std::string &, u64, u64);
        u64 off = sim.d(20), len = 1 + sim.d(200); auto s = sb_section(f, off, len); int r = LIB(pt_image_add_file(k, f.c_str(), off, len, nullptr, va)); if (r) sim.fail("setup", "kernel image: %s", errname(r)); World::add(os.kernel, Ent{NOCR3, NOVM, va, s->size, 0, 0, s}); va += s->size + sim.d(3) * 8; }
}
// With mem, allocations fail: what cannot be done is reported, and up to there all holds.
static void sb_image_run(bool low)
{
    SbOs os; os.files(); os.streams(); SbSess ss; bool lost = false;
    if (low && sim.d(2)) { size_t n0 = seam.live.size(); u64 f0 = seam.fired; seam.arm_at(F_ALLOC, 1 + sim.d(8)); bool ok = ss.open(); seam.disable_all(); if (!ok) { if (f0 == seam.fired) sim.fail("setup", "no session"); ss.close(); if (seam.live.size() != n0) sim.fail("leak-memory", "a failing session allocation leaves %zu allocations", seam.live.size() - n0); } else if (f0 != seam.fired) sim.fail("fault-ignored", "the session is allocated although an allocation failed"); }
    if (!ss.s && !ss.open()) sim.fail("setup", "no session"); setup_kernel(os, ss);
    bool user = false, kev = true, dirty = true; u64 last = 0; bool ring0 = sim.d(2), itrace = sim.d(3) == 0; std::vector<TrEv> ev;
    // processes that are there already
    int init = 0; for (size_t k = 0; k < os.st.size(); k++) if (os.st[k].cpu == 1000) init = (int) k; if (os.st[init].cpu != 1000) init = (int) sim.d((u32) os.st.size());
    u32 np = 1 + sim.d(3); for (u32 k = 0; k < np; k++) { u32 pid = ++os.nextpid; os.procs[pid].pid = pid; os.procs[pid].mm = os.kernel; if (sim.d(2)) os.rec(init, 3, sim.d(2) ? 1 << 13 : 0, [&] { std::vector<u8> b; le_put(b, pid, 4); le_put(b, pid, 4); return b; }(), "init", true); os.populate(init, pid, true); }
    for (size_t c = 0; c < os.run.size(); c++) { std::vector<u32> v{0}; for (auto &x : os.procs) v.push_back(x.first); os.tick(); u32 to = sim.pick(v); if (c == 0 && itrace) { to = v.back(); if (to && sim.d(2)) { pt_event e = event(ptev_enabled, os.t); e.variant.enabled.ip = uip(); TrEv x; x.t = os.t; x.ev = e; x.user = false; x.pid = to; x.check = false; ev.push_back(x); last = os.t; os.tick(); user = true; kev = false; } os.run[0] = to; os.announced = to; os.known = true; std::vector<u8> b; le_put(b, to, 4); le_put(b, to, 4); os.rec(os.stream(0), 12, 0, b); } else os.sched((int) c, to); }
    // the history
    u32 n = sim.range(10, 90), swi = 0; std::map<u32, MImgP> snap;
    auto lag = [&](u64 t) { return t - (os.delta ? sim.d((u32) os.delta + 1) : 0); };
    auto emit = [&](pt_event e) { TrEv x; x.t = os.t; x.ev = e; x.user = user; x.pid = user ? os.run[0] : os.announced; x.check = os.known && (user || !x.pid || os.procs.count(x.pid)); if (x.check) x.mm = std::make_shared<const MImg>(x.pid ? os.procs[x.pid].mm : os.kernel); LOG("  t %llu event %d tsc %llx %s pid %u\n", X(os.t), e.type, X(e.tsc), user ? "user" : "kernel", x.pid); ev.push_back(x); };
    auto tsc = [&]() { u64 v = std::max(last, lag(os.t)); last = v; return v; };
    if (ring0) os.between = [&]() { if (sim.d(3) == 0) { os.tick(); emit(in_kernel(tsc())); kev = true; os.tick(); } };
    for (u32 k = 0; k < n; k++) {
        os.tick();
        if (os.run.size() > 1 && sim.d(3) == 0) { os.action((int) sim.range(1, (u32) os.run.size() - 1)); continue; }
        if (user) {
            if (sim.d(3)) { emit(in_user(tsc())); continue; }
            user = false; kev = false; dirty = false; u64 v = tsc();       // into the kernel
            if (!ring0) { if (sim.d(2)) { pt_event e = event(ptev_disabled, v); e.ip_suppressed = 1; emit(e); } else { pt_event e = event(ptev_async_disabled, v); e.variant.async_disabled.at = uip(); e.ip_suppressed = 1; emit(e); } kev = true; }
            else if (sim.d(2)) { pt_event e = event(ptev_async_branch, v); e.variant.async_branch.from = uip(); e.variant.async_branch.to = kip(); emit(e); kev = true; }
            continue; }
        switch (sim.d(3)) {
        case 0: { u32 was = os.run[0]; size_t nx = os.stat_exec; if (ring0 && sim.d(4) == 0) { emit(event(ptev_paging, tsc())); kev = true; os.tick(); } os.action(0); if (os.run[0] != was || os.stat_exec != nx) { dirty = true; swi++; if (ring0 && (!kev || sim.d(3))) { os.tick(); emit(event(ptev_paging, tsc())); kev = true; } } } break;
        case 1: if (ring0) { emit(in_kernel(tsc())); kev = true; } break;
        default: if (!os.run[0]) { u32 was = os.run[0]; os.action(0); if (os.run[0] != was) { dirty = true; if (ring0) { os.tick(); emit(in_kernel(tsc())); kev = true; } } break; }      // idle has no user code
            if (ring0 && dirty && !kev) { emit(in_kernel(tsc())); kev = true; os.tick(); }
            user = true; if (!ring0 || sim.d(4) == 0 || ev.empty()) { pt_event e = event(ptev_enabled, tsc()); e.variant.enabled.ip = uip(); emit(e); } break; }
    }
    os.finish(); for (auto &s : os.st) { 
        if (low && sim.d(2)) { size_t n0 = seam.live.size(); u64 f0 = seam.fired; seam.arm_at(sim.d(6) ? F_ALLOC : F_FDOPEN, 1 + sim.d(6)); int q = ss.add(os, s); seam.disable_all(); if (q >= 0) { if (f0 != seam.fired) sim.fail("fault-ignored", "adding %s succeeds although an allocation failed", s.file.c_str()); continue; } if (f0 == seam.fired) sim.fail("setup", "adding %s: %s", s.file.c_str(), errname(q)); if (seam.live.size() != n0) sim.fail("leak-memory", "failing to add %s leaves %zu allocations", s.file.c_str(), seam.live.size() - n0); sim.count("oom-reported"); }
        int r = ss.add(os, s); if (r < 0) sim.fail("setup", "adding %s: %s", s.file.c_str(), errname(r)); if (!low && sim.d(4) == 0) { r = LIB(pt_sb_init_decoders(ss.s)); if (r < 0) sim.fail("setup", "init: %s", errname(r)); } }
    u64 f0 = seam.fired, nn = 0; if (low && sim.p(1, 4)) seam.arm_at(F_ALLOC, 1 + sim.d(40));
    int r = LIB(pt_sb_init_decoders(ss.s)); seam.disable_all(); auto oom = [&](const char *what) { if (lost || seam.fired == f0) return lost; if (r < 0) { lost = true; } else for (; nn < ss.notes.size(); nn++) if (ss.notes[nn].err < 0) lost = true; if (lost) { sim.count("oom-reported"); LOG("%s reports the failure\n", what); } f0 = seam.fired; return lost; };
    if (!oom("init") && r < 0) sim.fail("setup", "init: %s", errname(r));
    if (low) { if (sim.d(2)) seam.arm_at(F_ALLOC, 1 + sim.d(sim.d(2) ? 30 : 300)); else seam.enable(F_ALLOC, 3 + sim.d(60)); }
    pt_image *img = nullptr; u32 users = 0, flags = 0; FILE *out = nullptr; char *mem = nullptr; size_t memn = 0; struct C { FILE *&f; char *&m; ~C() { if (f) fclose(f); free(m); } } cl{out, mem};
    if (sim.d(5) == 0) { out = open_memstream(&mem, &memn); flags = sim.d(32); }
    for (auto &x : ev) {
        LOG("event %d tsc %llx %s\n", x.ev.type, X(x.ev.tsc), x.user ? "user" : "kernel"); size_t esz = sizeof x.ev + (sim.d(2) ? 0 : 0);
        ss.last = nullptr; pt_image *was = img; r = LIB(pt_sb_event(ss.s, &img, &x.ev, esz, out, flags)); if (oom("event")) { seam.disable_all(); r = 0; if (img) { std::vector<World::Got> g; probe_image(img, NOCR3, NOVM, uip(), 8, g, false); } sim.h(1); continue; } if (r < 0) sim.fail("event", "pt_sb_event: %s", errname(r)); sim.h((u64)(img != was) + x.ev.tsc);
        if (img != was && (!ss.last || LIB(pt_sb_ctx_image(ss.last)) != img)) sim.fail("notification", "the image changed without a context switch notification for it");
        struct Hush { bool on[F_NFAULTS]; Hush() { memcpy(on, seam.on, sizeof on); seam.disable_all(); } ~Hush() { memcpy(seam.on, on, sizeof on); } } hush;
        if (x.check) {
            users += x.user; if (!img) sim.fail("no-image", "at tsc %llx process %u runs and no image is given", X(x.ev.tsc), x.pid); char w[80]; snprintf(w, sizeof w, "tsc %llx process %u", X(x.ev.tsc), x.pid); sample_image(img, *x.mm, sim.p(1, 10), w);
            pt_sb_context *c = nullptr; r = LIB(pt_sb_find_context_by_pid(&c, ss.s, x.pid)); if (r < 0 || !c) sim.fail("context", "no context for running process %u", x.pid); if (LIB(pt_sb_ctx_image(c)) != img) sim.fail("context", "tsc %llx: the image is not that of process %u", X(x.ev.tsc), x.pid);
        } else if (img) { MImg k = os.kernel; u64 a = SbOs::kern + sim.d(SbOs::klen); read_image(img, k, a, a + 1 + sim.d(60), "kernel"); }
    }
    seam.disable_all(); if (lost) { ss.close(); seam.check_released("sideband session freed"); sim.nontrivial = true; return; }
    // every warning, once each
    std::map<std::pair<std::string, u64>, int> want, code; u64 lasttsc = ev.empty() ? 0 : ev.back().ev.tsc; for (auto &s : os.st) for (size_t k = 0; k < s.recs.size(); k++) if (s.loud[k] && !ev.empty() && os.eff(s, s.recs[k]) <= lasttsc) want[{s.file, s.at[k]}]++, code[{s.file, s.at[k]}] = s.loud[k];
    for (auto &nt : ss.notes) if (--want[{nt.file, nt.off}] < 0) sim.fail("notification", "unexpected warning %d for %s at offset %llx", nt.err, nt.file.c_str(), X(nt.off));
    for (auto &nt : ss.notes) { int c = code[{nt.file, nt.off}]; if (c > 0 ? nt.err != c : nt.err >= 0) sim.fail("notification", "warning %d instead of %d for %s at offset %llx", nt.err, c, nt.file.c_str(), X(nt.off)); }
    for (auto &w : want) if (w.second) sim.fail("notification", "no warning for the record at offset %llx of %s", X(w.first.second), w.first.first.c_str());
    if (users > 3 && swi > 0) sim.nontrivial = true; sim.count("user-events", users); sim.count("switches", swi); sim.simtime = os.t;
    ss.close(); seam.check_released("sideband session freed");
}
void sb_oom() { sb_image_run(true); if (!sim.nontrivial) sim.nontrivial = seam.fired > 0; }
static void sb_image() { seam.reset(); sb_image_run(false); }
SCENARIO("C23", sb_image, "sideband records select the running process's image");
