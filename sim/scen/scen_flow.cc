#include "decode.h"
#include <algorithm>
#define X(v) ((unsigned long long)(v))

static void c01() { seam.reset(); { Machine m; m.build(); Code c(m); c.o.vmcs = true; c.make(); check_insn(m, c); sim.nontrivial = m.t.x.size() > 3; } seam.check_released("end of run"); }
SCENARIO("C01", c01, "instruction flow of a simulated execution");
static void c02() { seam.reset(); { Machine m; m.build(); Code c(m); c.o.vmcs = true; c.make(); for (u32 n = 1 + sim.d(3); n > 0; n--) { RunOpt o; o.end_on_call = sim.p(1, 3); o.end_on_jump = sim.p(1, 3); check_block(m, c, o); }     // later passes find code that was decoded before
      sim.nontrivial = m.t.x.size() > 3; } seam.check_released("end of run"); }
SCENARIO("C02", c02, "block flow of a simulated execution");
static void c04() { seam.reset(); { Machine m; m.build(); check_evt(m); check_qry(m); sim.nontrivial = m.t.layer.size() > 3; } seam.check_released("end of run"); }
SCENARIO("C04", c04, "event and query layer");

// Events: everything that makes events happens often; decode starts at a random synchronisation point.
static void c03()
{
    seam.reset();
    { Machine m; m.gen_feat(); auto on = [&](u32 n, u32 d) { return sim.p(n, d); };
      m.f.intr = on(3, 4); m.f.cfe = on(2, 3); m.f.ptw = on(2, 3); m.f.pwr = on(1, 2); m.f.tsx = on(1, 2); m.f.trig = on(1, 3); m.f.cbr = on(1, 2); m.f.mnt = on(1, 3); m.f.uintr = on(1, 3); m.f.vmx = m.f.os && on(1, 3); m.f.psb = on(2, 3);
      m.f.misc_rate = sim.range(2, 10); m.f.intr_rate = sim.range(3, 30); m.f.psb_rate = sim.range(6, 60); m.f.nsteps = std::min<u32>(m.f.nsteps, 400);
      m.gen_program(); m.run(); Code c(m); c.make(); RunOpt o; o.sync = (int) sim.d((u32) m.t.sync.size());
      if (sim.d(2)) check_insn(m, c, o); else check_block(m, c, o);
      sim.nontrivial = m.t.ev.size() > 6; }
    seam.check_released("end of run");
}
SCENARIO("C03", c03, "events of a simulated execution");

static void c05()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.ovf = true; m.f.ovf_rate = sim.range(4, 60); if (sim.d(2)) { m.f.retc = true; } m.f.nsteps = std::max<u32>(m.f.nsteps, 60); m.gen_program(); m.run(); Code c(m); c.make(); RunOpt o;
      switch (sim.d(4)) { case 0: check_insn(m, c, o); break; case 1: check_block(m, c, o); break; case 2: check_evt(m, o); break; case 3: check_qry(m, o); break; }
      size_t n = 0; for (auto &e : m.t.ev) n += e.e.type == ptev_overflow; sim.nontrivial = n > 0 && m.t.x.size() > 3; }
    seam.check_released("end of run");
}
SCENARIO("C05", c05, "buffer overflow");

// The trace is cut at an arbitrary byte.
static void c08()
{
    seam.reset();
    { Machine m; m.build(); Code c(m); c.make();
      for (u32 n = sim.range(1, 4); n > 0; n--) {
          RunOpt o; size_t k = sim.d((u32) m.t.cuts.size()); CutPt &cp = m.t.cuts[k]; size_t end = k + 1 < m.t.cuts.size() ? m.t.cuts[k + 1].off : m.t.trace.size();
          u64 cut = cp.off; if (end > cut && sim.p(2, 3)) cut += sim.d((u32)(end - cut));
          while (k + 1 < m.t.cuts.size() && m.t.cuts[k + 1].off == cp.off && m.t.cuts[k + 1].off <= cut) k++;      // the last moment with this much trace
          o.cp = &m.t.cuts[k]; o.cp_exact = cut == cp.off; o.end = cut; o.cp_xmax = m.t.x.size();
          sim.count(o.cp_exact ? "fault.cut-between-packets" : "fault.cut-inside-packets"); LOG("cut at %llx, last complete moment %llx", X(cut), X(cp.off));
          RunOpt ob = o; ob.end_on_call = sim.p(1, 4); ob.end_on_jump = sim.p(1, 4);
          switch (sim.d(4)) { case 0: check_insn(m, c, o); break; case 1: check_block(m, c, ob); break; case 2: check_evt(m, o); break; case 3: if (o.cp_exact) check_qry(m, o); else check_insn(m, c, o); break; }
      }
      sim.nontrivial = m.t.layer.size() > 3; }
    seam.check_released("end of run");
}
SCENARIO("C08", c08, "trace cut short at any byte");

// Segments decoded by one decoder each, in any order and interleaving, sharing the image.
static void c10()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.psb = true; m.f.psb_rate = sim.range(8, 60); m.gen_program(); m.run(); Code c(m); c.make();
      size_t n = m.t.sync.size(); std::vector<CutPt> cp(n); std::vector<std::unique_ptr<FlowRun>> rs; std::vector<int> kind; size_t total = 0;
      for (size_t k = 0; k < n; k++) {
          RunOpt o; o.sync = (int) k; o.begin = m.t.sync[k].off; if (k && sim.p(1, 4)) o.begin = 0;
          if (k + 1 < n) { auto &s = m.t.sync[k + 1]; cp[k].off = s.off; cp[k].anchor = cp[k].xi = s.xi; cp[k].ev = s.ev; cp[k].layer = s.layer; cp[k].next_ip = s.ip; cp[k].on = s.enabled; cp[k].proc = s.xi < m.t.x.size() ? m.t.x[s.xi].proc : 0; cp[k].proc = s.proc; cp[k].loose = s.stale; o.end = s.off; o.cp = &cp[k]; }
          o.tag = "segment";
          if (sim.d(2)) rs.emplace_back(new InsnRun(m, c, o)); else rs.emplace_back(new BlockRun(m, c, o));
      }
      std::vector<size_t> live; for (size_t k = 0; k < n; k++) live.push_back(k);
      while (!live.empty()) {
          u32 i = sim.d((u32) live.size()); FlowRun &r = *rs[live[i]]; u32 steps = 1 + sim.d(20);
          while (steps-- && r.step()) ;
          if (r.done) { total += r.xi - r.start_xi; if (sim.d(2)) rs[live[i]].reset(); live.erase(live.begin() + i); }
      }
      sim.count("segments", n); sim.nontrivial = n > 1 && total > 3; }
    seam.check_released("end of run");
}
SCENARIO("C10", c10, "segments decoded independently");

// ---------------------------------------------------------------- damage and recovery
static std::vector<u8> damage(const Machine &m, u64 &a, u64 &b)
{
    std::vector<u8> d = m.t.trace; size_t n = m.t.sync.size();
    a = sim.d((u32) d.size()); u64 len = 1 + sim.d(sim.p(1, 3) ? 200 : 12); b = std::min<u64>(a + len, d.size());
    if (n > 1 && sim.p(1, 2)) { u64 s = m.t.sync[1 + sim.d((u32) n - 1)].off; b = s - sim.d((u32) std::min<u64>(s, 40)); a = b > len ? b - len : 0; }
    std::vector<u64> mo; if (sim.p(1, 8)) for (u64 i = 0; i + 1 < d.size(); i++) if (d[i] == 0x99) mo.push_back(i);
    if (!mo.empty()) { a = mo[sim.d((u32) mo.size())]; d[++a] = (u8)(0x20 | sim.d(4)); b = a + 1; }       // a mode packet turns into another one
    else for (u64 i = a; i < b; i++) switch (sim.d(4)) { case 0: d[i] = (u8) sim.d(256); break; case 1: d[i] ^= (u8)(1 << sim.d(8)); break; case 2: d[i] = d[sim.d((u32) d.size())]; break; case 3: d[i] = 0; break; }
    if (b > a && d[b - 1] == 0x82) d[b - 1] = 0;         // must not extend the next synchronisation pattern to the front
    sim.count("fault.trace-damage");
    return d;
}
// Synchronisation points of the damaged trace, by definition: an intact pattern.
static std::vector<u64> psbs(const std::vector<u8> &d)
{
    std::vector<u64> v; static const u8 p[16] = {2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82};
    for (size_t i = 0; i + 16 <= d.size(); ) { if (!memcmp(&d[i], p, 16)) v.push_back(i); i++; }
    return v;
}
struct Ops { int (*sync)(void *); int (*off)(void *, uint64_t *); int (*soff)(void *, uint64_t *); };
static Ops ops_i = { [](void *d) { return LIB(pt_insn_sync_forward((pt_insn_decoder *) d)); }, [](void *d, uint64_t *o) { return pt_insn_get_offset((pt_insn_decoder *) d, o); }, [](void *d, uint64_t *o) { return pt_insn_get_sync_offset((pt_insn_decoder *) d, o); } };
static Ops ops_b = { [](void *d) { return LIB(pt_blk_sync_forward((pt_block_decoder *) d)); }, [](void *d, uint64_t *o) { return pt_blk_get_offset((pt_block_decoder *) d, o); }, [](void *d, uint64_t *o) { return pt_blk_get_sync_offset((pt_block_decoder *) d, o); } };

static void recover(Machine &m, FlowRun &r, void *dec, const Ops &op, const std::vector<u64> &ps, u64 a, u64 b)
{
    int st = op.sync(dec); u64 prev = ~0ull; bool any = false; int rounds = 0;
    while (st != -pte_eos) {
        if (++rounds > 10000) sim.fail("recovery", "synchronisation does not advance");
        if (st < 0) { st = op.sync(dec); continue; }       // a damaged PSB+: the next call goes on from there
        uint64_t so = ~0ull; if (op.soff(dec, &so) < 0) sim.fail("recovery", "no sync offset after a successful synchronisation");
        if (!std::binary_search(ps.begin(), ps.end(), so)) sim.fail("recovery", "synchronised at %llx, where there is no synchronisation point", X(so));
        if (prev != ~0ull && so <= prev) sim.fail("recovery", "synchronising forward went from %llx to %llx", X(prev), X(so));
        prev = so;
        int k = so >= b ? find_sync(m, so) : -1;
        if (k >= 0) { r.resync(k, st); any = true; LOG("  checking from %llx", X(so)); while (r.step()) { } break; }
        r.wild = true; r.done = false; r.status = st; r.started = true;
        u32 lim = sim.p(1, 3) ? sim.d(30) : 4000; u64 s0 = sim.steps; while (lim-- && r.step() && sim.steps - s0 < 15000000) ;
        uint64_t pos = 0; if (op.off(dec, &pos) < 0) pos = so;
        if (pos > m.t.trace.size()) sim.fail("recovery", "position %llx beyond the trace", X(pos));
        st = op.sync(dec); for (int k = 0; st < 0 && st != -pte_eos && k < 1000; k++) st = op.sync(dec);
        LOG("  sync forward from %llx: %s", X(pos), errname(st)); uint64_t s2 = m.t.trace.size(); if (st >= 0) op.soff(dec, &s2);
        // intact points that lie ahead must not be passed over; one may have been read ahead already
        size_t skipped = 0; for (auto &s : m.t.sync) if (s.off >= b && s.off > pos && s.off > so && s.off < s2) skipped++;
        if (skipped > 1) sim.fail("recovery", "synchronising forward from %llx skipped %zu intact synchronisation points", X(pos), skipped);
    }
    if (!any && st != -pte_eos && st < 0 && find_sync(m, prev) < 0 && false) sim.fail("recovery", "ends with %s", errname(st));
    sim.count(any ? "recovered" : "not-recovered"); sim.nontrivial |= any;
}
static void c07()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.psb = true; m.f.psb_rate = sim.range(8, 60); m.gen_program(); m.run(); Code c(m); c.make();
      u64 a, b; std::vector<u8> d = damage(m, a, b); auto ps = psbs(d); LOG("damage at %llx..%llx", X(a), X(b)); RunOpt o; o.data = &d; o.tag = "recover";
      switch (sim.d(4)) {
      case 0: { InsnRun r(m, c, o); recover(m, r, r.d, ops_i, ps, a, b); } break;
      case 1: { o.end_on_call = sim.p(1, 4); BlockRun r(m, c, o); recover(m, r, r.d, ops_b, ps, a, b); } break;
      default: { o.tag = "layers";      // event or query layer
          std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); bool q = sim.d(2); cf.flags.variant.event.enable_iflags_events = 0; if (q) cf.flags.variant.query.enable_iflags_events = m.f.iflags_ev; else cf.flags.variant.event.enable_iflags_events = m.f.iflags_ev;
          pt_event_decoder *e = q ? nullptr : LIB(pt_evt_alloc_decoder(&cf)); pt_query_decoder *y = q ? LIB(pt_qry_alloc_decoder(&cf)) : nullptr; if (!e && !y) sim.fail("decoder-setup", "out of memory");
          struct G { pt_event_decoder *e; pt_query_decoder *y; ~G() { if (e) LIB(pt_evt_free_decoder(e)); if (y) LIB(pt_qry_free_decoder(y)); } } g{e, y};
          for (u32 rounds = 0; ; rounds++) {
              u64 ip; int st = q ? LIB(pt_qry_sync_forward(y, &ip)) : LIB(pt_evt_sync_forward(e)); if (st == -pte_eos) break;
              if (rounds > 10000) sim.fail("recovery", "synchronisation does not advance");
              if (st < 0) continue;
              uint64_t so; if ((q ? pt_qry_get_sync_offset(y, &so) : pt_evt_get_sync_offset(e, &so)) < 0) sim.fail("recovery", "no sync offset");
              if (!std::binary_search(ps.begin(), ps.end(), so)) sim.fail("recovery", "synchronised at %llx, where there is no synchronisation point", X(so));
              int k = so >= b ? find_sync(m, so) : -1;
              if (k >= 0) { RunOpt p = o; p.sync = k; sim.nontrivial = true; if (q) run_qry(m, p, y, st, ip); else run_evt(m, p, e); break; }
              u32 lim = sim.p(1, 3) ? sim.d(30) : 3000;
              while (lim--) { pt_event v; int t; uint64_t tip; int r = !q ? LIB(pt_evt_next(e, &v, sizeof v)) : st & pts_event_pending ? LIB(pt_qry_event(y, &v, sizeof v)) : sim.d(3) ? LIB(pt_qry_cond_branch(y, &t)) : LIB(pt_qry_indirect_branch(y, &tip)); if (r < 0 && (r != -pte_bad_query || sim.p(1, 4))) break; if (r >= 0) st = r; }
          } } break;
      } }
    seam.check_released("end of run");
}
SCENARIO("C07", c07, "recovery after trace damage");

// ---------------------------------------------------------------- synchronisation walks
struct Layer { const char *name; void *d; int (*fwd)(void *); int (*back)(void *); int (*set)(void *, u64); int (*off)(void *, uint64_t *); int (*soff)(void *, uint64_t *); int (*adv)(void *); void (*fr)(void *); };
#define LAYER(P, T) Layer{ #P, nullptr, [](void *d) { return LIB(P##_sync_forward((T *) d)); }, [](void *d) { return LIB(P##_sync_backward((T *) d)); }, [](void *d, u64 o) { return LIB(P##_sync_set((T *) d, o)); }, [](void *d, uint64_t *o) { return P##_get_offset((T *) d, o); }, [](void *d, uint64_t *o) { return P##_get_sync_offset((T *) d, o); }, nullptr, nullptr }
static uint64_t walk_ip;
static Layer mk(int which, pt_config &c, void *fd)
{
    Layer l;
    switch (which) {
    case 0: l = LAYER(pt_pkt, pt_packet_decoder); l.d = LIB(pt_pkt_alloc_decoder(&c)); l.adv = [](void *d) { pt_packet p; return LIB(pt_pkt_next((pt_packet_decoder *) d, &p, sizeof p)); }; l.fr = [](void *d) { LIB(pt_pkt_free_decoder((pt_packet_decoder *) d)); }; break;
    case 1: l = LAYER(pt_evt, pt_event_decoder); l.d = LIB(pt_evt_alloc_decoder(&c)); l.adv = [](void *d) { pt_event p; return LIB(pt_evt_next((pt_event_decoder *) d, &p, sizeof p)); }; l.fr = [](void *d) { LIB(pt_evt_free_decoder((pt_event_decoder *) d)); }; break;
    case 2: l = { "pt_qry", LIB(pt_qry_alloc_decoder(&c)), [](void *d) { walk_ip = ~0ull; return LIB(pt_qry_sync_forward((pt_query_decoder *) d, &walk_ip)); }, [](void *d) { walk_ip = ~0ull; return LIB(pt_qry_sync_backward((pt_query_decoder *) d, &walk_ip)); }, [](void *d, u64 o) { walk_ip = ~0ull; return LIB(pt_qry_sync_set((pt_query_decoder *) d, &walk_ip, o)); }, [](void *d, uint64_t *o) { return pt_qry_get_offset((pt_query_decoder *) d, o); }, [](void *d, uint64_t *o) { return pt_qry_get_sync_offset((pt_query_decoder *) d, o); },
            [](void *d) { pt_event e; int t; uint64_t ip; int r = LIB(pt_qry_event((pt_query_decoder *) d, &e, sizeof e)); if (r < 0) r = LIB(pt_qry_cond_branch((pt_query_decoder *) d, &t)); if (r < 0) r = LIB(pt_qry_indirect_branch((pt_query_decoder *) d, &ip)); return r; }, [](void *d) { LIB(pt_qry_free_decoder((pt_query_decoder *) d)); } }; break;
    case 3: l = LAYER(pt_insn, pt_insn_decoder); l.d = fd; l.adv = [](void *d) { pt_event e; pt_insn i; int r = LIB(pt_insn_event((pt_insn_decoder *) d, &e, sizeof e)); return r < 0 ? LIB(pt_insn_next((pt_insn_decoder *) d, &i, sizeof i)) : r; }; l.fr = [](void *) {}; break;
    default: l = LAYER(pt_blk, pt_block_decoder); l.d = fd; l.adv = [](void *d) { pt_event e; pt_block i; int r = LIB(pt_blk_event((pt_block_decoder *) d, &e, sizeof e)); return r < 0 ? LIB(pt_blk_next((pt_block_decoder *) d, &i, sizeof i)) : r; }; l.fr = [](void *) {}; break;
    }
    if (!l.d) sim.fail("decoder-setup", "%s: out of memory", l.name);
    return l;
}
static void c09()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.psb = true; m.f.psb_rate = sim.range(4, 40); m.f.nsteps = std::min<u32>(m.f.nsteps, 200); m.gen_program(); m.run(); Code c(m); c.make();
      RunOpt o; std::vector<u64> S; for (auto &s : m.t.sync) S.push_back(s.off); std::vector<u8> d; u64 base = 0;
      if (S.size() > 1 && sim.p(1, 4)) { base = S[1]; o.begin = base; }
      std::vector<u8> lead; if (sim.p(1, 3)) { d.assign(sim.d(40), 0); for (auto &x : d) { x = (u8) sim.d(256); if (x == 2 || x == 0x82) x = 0; } size_t n = d.size(); d.insert(d.end(), m.t.trace.begin() + base, m.t.trace.end()); o.data = &d; o.begin = 0; std::vector<u64> T; for (u64 x : S) if (x >= base) T.push_back(x - base + n); S = T; }      // starts in the middle of something
      else { std::vector<u64> T; for (u64 x : S) if (x >= base) T.push_back(x - base); S = T; }
      std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); int which = (int) sim.d(5); if (which == 1) cf.flags.variant.event.enable_iflags_events = m.f.iflags_ev; if (which == 2) cf.flags.variant.query.enable_iflags_events = m.f.iflags_ev;
      std::unique_ptr<InsnRun> fi(which == 3 ? new InsnRun(m, c, o) : nullptr); std::unique_ptr<BlockRun> fb(which == 4 ? new BlockRun(m, c, o) : nullptr); if (fi) { fi->started = true; fi->o.tag = "after-walk"; } if (fb) { fb->started = true; fb->o.tag = "after-walk"; }
      Layer l = mk(which, cf, fi ? (void *) fi->d : fb ? (void *) fb->d : nullptr); int last = 0; struct G { Layer &l; ~G() { l.fr(l.d); } } g{l}; u64 size = buf.size();
      LOG("buffer of %llx bytes at %p %p..%p", X(size), buf.data(), cf.begin, cf.end); for (u64 x : S) LOG("  %s", hexs(&buf[x], 16).c_str()); for (u64 x : S) LOG("  point %llx", X(x));
      size_t i = 0; bool synced = false;       // current point: S[i] once synced
      auto now = [&](const char *how) { uint64_t so = ~0ull; int r = l.soff(l.d, &so); if (r < 0) sim.fail("sync-walk", "%s: no sync offset after %s: %s", l.name, how, errname(r)); LOG("  %s %s -> %llx", l.name, how, X(so)); sim.h(so);
          if (so != S[i]) sim.fail("sync-walk", "%s: %s arrives at %llx, expected %llx (point %zu of %zu)", l.name, how, X(so), X(S[i]), i, S.size());
          uint64_t po; r = l.off(l.d, &po); if (r < 0 || po > size || po < so) sim.fail("sync-walk", "%s: position %llx after %s to %llx (%s)", l.name, X(po), how, X(so), errname(r)); };
      // positions are only known right after a synchronisation; a walk that advanced starts over with a set or a full walk
      for (u32 n = sim.p(1, 6) ? 0 : sim.range(2, 12); n > 0; n--) {
          switch (sim.d(5)) {
          case 0: { // full forward walk from a fresh start: from the first point on (or a new decoder)
              if (synced) { i = sim.d((u32) S.size()); int r = last = l.set(l.d, S[i]); if (r < 0) sim.fail("sync-walk", "%s: sync_set to point %llx: %s", l.name, X(S[i]), errname(r)); now("sync_set"); }
              else { int r = last = l.fwd(l.d); if (r < 0) sim.fail("sync-walk", "%s: first forward: %s", l.name, errname(r)); i = 0; synced = true; now("forward"); }
              while (i + 1 < S.size()) { int r = last = l.fwd(l.d); if (r < 0) sim.fail("sync-walk", "%s: forward from point %zu of %zu: %s", l.name, i, S.size(), errname(r)); i++; now("forward"); }
              int r = last = l.fwd(l.d); if (r != -pte_eos) sim.fail("sync-walk", "%s: forward from the last point: %s", l.name, errname(r)); sim.count("walk-forward"); } break;
          case 1: { // full backward walk; a fresh decoder starts at the end
              if (synced) { i = sim.d((u32) S.size()); int r = last = l.set(l.d, S[i]); if (r < 0) sim.fail("sync-walk", "%s: sync_set to point %llx: %s", l.name, X(S[i]), errname(r)); now("sync_set"); }
              else { int r = last = l.back(l.d); if (r < 0) sim.fail("sync-walk", "%s: first backward: %s", l.name, errname(r)); i = S.size() - 1; synced = true; now("backward"); }
              while (i) { int r = last = l.back(l.d); if (r < 0) sim.fail("sync-walk", "%s: backward from point %zu of %zu: %s", l.name, i, S.size(), errname(r)); i--; now("backward"); }
              int r = last = l.back(l.d); if (r != -pte_eos) sim.fail("sync-walk", "%s: backward from the first point: %s", l.name, errname(r)); sim.count("walk-backward"); } break;
          case 2: { // set anywhere: succeeds exactly at the points
              u64 at = sim.d(2) ? S[sim.d((u32) S.size())] + sim.d(4) * sim.d(2) : sim.d((u32) size + 40); if (sim.p(1, 4)) { u64 q = S[sim.d((u32) S.size())], z = 1 + sim.d(18); at = q < z ? 0 : q - z; } bool is = std::binary_search(S.begin(), S.end(), at); u64 z = at; while (!is && z < size && !buf[z]) z++; if (z != at && std::binary_search(S.begin(), S.end(), z)) break;      // padding in front of a point
              int r = last = l.set(l.d, at);
              if (is != (r >= 0)) { if (which == 0 && at <= size && !is) { bool fw = sim.d(2); last = fw ? l.fwd(l.d) : l.back(l.d); uint64_t so = ~0ull; if (last >= 0) l.soff(l.d, &so); size_t up = std::upper_bound(S.begin(), S.end(), at) - S.begin();       // packets can be read from anywhere; from there to the next point, or to the one before
                      if (last < 0 && last != -pte_eos) sim.fail("sync-walk", "%s: walking from %llx: %s", l.name, X(at), errname(last)); sim.count("walk-from-anywhere");
                      if (fw ? last < 0 ? up < S.size() : up >= S.size() || so != S[up] : last < 0 ? up > 0 && (up > 1 || S[0] + 16 <= at) : !up || (so != S[up - 1] && (S[up - 1] + 16 <= at || up < 2 || so != S[up - 2]))) sim.fail("sync-walk", "%s: %s from %llx: %s %llx", l.name, fw ? "forward" : "backward", X(at), errname(last), X(so));
                      i = sim.d((u32) S.size()); synced = true; r = last = l.set(l.d, S[i]); now("sync_set"); break; } sim.fail("sync-walk", "%s: sync_set to %llx, which is %sa synchronisation point: %s", l.name, X(at), is ? "" : "not ", errname(r)); }
              if (is) { i = std::lower_bound(S.begin(), S.end(), at) - S.begin(); synced = true; now("sync_set"); sim.count("set-point"); } else { sim.count("set-nowhere"); i = sim.d((u32) S.size()); synced = true; r = last = l.set(l.d, S[i]); if (r < 0) sim.fail("sync-walk", "%s: sync_set to point %llx after one to %llx: %s", l.name, X(S[i]), X(at), errname(r)); now("sync_set"); } } break;
          case 3: { // decode a little from a point, then walk: the next/previous point relative to the position
              i = sim.d((u32) S.size()); int r = last = l.set(l.d, S[i]); if (r < 0) sim.fail("sync-walk", "%s: sync_set to point %llx: %s", l.name, X(S[i]), errname(r)); synced = true; now("sync_set");
              u32 adv = sim.d(sim.p(1, 4) ? 400 : 12); for (u32 k = 0; k < adv; k++) if (l.adv(l.d) < 0) break;
              uint64_t pos = 0; r = l.off(l.d, &pos); if (r < 0 || pos > size) sim.fail("sync-walk", "%s: position after advancing: %s %llx", l.name, errname(r), X(pos));
              uint64_t cur = 0; l.soff(l.d, &cur); bool fwd = sim.d(2); r = last = fwd ? l.fwd(l.d) : l.back(l.d); uint64_t so = 0; if (r >= 0) l.soff(l.d, &so);
              if (r < 0 && r != -pte_eos) sim.fail("sync-walk", "%s: walking from %llx: %s", l.name, X(pos), errname(r));
              if (fwd) { // lands on a point at or after the position, passing over at most what was read ahead
                  size_t lo = (pos == cur ? std::upper_bound(S.begin(), S.end(), pos) : std::lower_bound(S.begin(), S.end(), pos)) - S.begin(); if (which == 0) { if (r < 0 ? lo < S.size() : lo >= S.size() || so != S[lo]) sim.fail("sync-walk", "%s: forward from %llx: %s %llx", l.name, X(pos), errname(r), X(so)); }
                  else { if (r >= 0 ? so <= S[i] || !std::binary_search(S.begin(), S.end(), so) : false) sim.fail("sync-walk", "%s: forward from %llx (synchronised at %llx) arrives at %llx", l.name, X(pos), X(S[i]), X(so)); size_t hi = r < 0 ? S.size() : std::lower_bound(S.begin(), S.end(), so) - S.begin(); lo = std::upper_bound(S.begin(), S.end(), std::max<u64>(pos, cur)) - S.begin(); if (hi > lo + 1) sim.fail("sync-walk", "%s: forward from %llx skips %zu points", l.name, X(pos), hi - lo); } }
              else if (which == 0) { size_t up = std::lower_bound(S.begin(), S.end(), pos) - S.begin(); if (r < 0 ? up > 0 : !up || so != S[up - 1]) sim.fail("sync-walk", "%s: backward from %llx: %s %llx", l.name, X(pos), errname(r), X(so)); }
              else { if (r >= 0 && (!std::binary_search(S.begin(), S.end(), so) || so > pos)) sim.fail("sync-walk", "%s: backward from %llx arrives at %llx", l.name, X(pos), X(so)); if (r < 0 && i) sim.fail("sync-walk", "%s: backward from %llx, after point %zu: %s", l.name, X(pos), i, errname(r)); if (r >= 0 && i && so < S[i - 1]) sim.fail("sync-walk", "%s: backward from %llx skips points, arrives at %llx", l.name, X(pos), X(so)); }
              sim.count("walk-from-position"); } break;
          case 4: { if (!synced) break; i = sim.d((u32) S.size()); int r = last = l.set(l.d, S[i]); if (r < 0) sim.fail("sync-walk", "%s: sync_set to point %llx: %s", l.name, X(S[i]), errname(r)); now("sync_set");
              for (u32 k = sim.d(6); k > 0; k--) { bool fwd = sim.d(2); if (fwd ? i + 1 >= S.size() : !i) break; r = last = fwd ? l.fwd(l.d) : l.back(l.d); if (r < 0) sim.fail("sync-walk", "%s: %s from point %zu of %zu: %s", l.name, fwd ? "forward" : "backward", i, S.size(), errname(r)); i += fwd ? 1 : -1; now(fwd ? "forward" : "backward"); } } break;
          }
      }
      // finally: go to a point one way or another and decode the rest
      if (which && sim.p(2, 3)) {
          if (!synced && sim.d(2)) { bool b = sim.d(2); last = b ? l.back(l.d) : l.fwd(l.d); if (last < 0) sim.fail("sync-walk", "%s: first %s: %s", l.name, b ? "backward" : "forward", errname(last)); i = b ? S.size() - 1 : 0; now(b ? "backward" : "forward"); }
          else { i = sim.d((u32) S.size()); last = l.set(l.d, S[i]); if (last < 0) sim.fail("sync-walk", "%s: sync_set to point %llx: %s", l.name, X(S[i]), errname(last)); now("sync_set"); }
          bool fwd = sim.d(2); u32 steps = sim.d(4); for (u32 k = 0; k < steps; k++) { if (fwd ? i + 1 >= S.size() : !i) break; last = fwd ? l.fwd(l.d) : l.back(l.d); if (last < 0) sim.fail("sync-walk", "%s: %s from point %zu of %zu: %s", l.name, fwd ? "forward" : "backward", i, S.size(), errname(last)); i += fwd ? 1 : -1; now(fwd ? "forward" : "backward"); }
          if (steps) sim.count(fwd ? "decode-after-forward" : "decode-after-backward");
          int k = (int)(m.t.sync.size() - S.size() + i); o.sync = k; FlowRun *r = fi ? (FlowRun *) fi.get() : fb.get();
          if (r) { r->resync(k, last); while (r->step()) ; } else if (which == 1) run_evt(m, o, (pt_event_decoder *) l.d); else run_qry(m, o, (pt_query_decoder *) l.d, last, walk_ip);
      }
      sim.nontrivial = S.size() > 2; }
    seam.check_released("end of run");
}
SCENARIO("C09", c09, "synchronisation walks");

// Errata: the decoder knows about some, the hardware shows some of those.
static void c28()
{
    seam.reset();
    { Machine m; m.gen_feat(); auto on = [&](u32 n, u32 d) { return sim.p(n, d); };
      m.f.large = false; m.f.nsteps = std::min<u32>(m.f.nsteps, 300);
      bool *e[9] = { &m.er.bdm70, &m.er.bdm64, &m.er.skd007, &m.er.skd022, &m.er.skd010, &m.er.skl014, &m.er.apl12, &m.er.apl11, &m.er.skz84 }, *s[9] = { &m.es.bdm70, &m.es.bdm64, &m.es.skd007, &m.es.skd022, &m.es.skd010, &m.es.skl014, &m.es.apl12, &m.es.apl11, &m.es.skz84 };
      static const u32 group[] = { 0x003, 0x03d, 0x129, 0x109, 0x029, 0x089, 0x0c0, 0x080 };      // as the errata come together on processors
      u32 must = sim.d(9), g; do g = group[sim.d(8)]; while (!(g >> must & 1)); for (u32 k = 0; k < 9; k++) { *e[k] = (g >> k & 1) && (k == must || on(1, 2)); *s[k] = *e[k] && (k == must || on(1, 2)); }
      if (m.es.bdm70 || m.es.skl014 || m.es.apl12 || m.es.apl11) m.f.filters |= on(2, 3);
      if (m.f.filters && (m.es.apl12 || m.es.skl014)) m.f.stop |= on(1, 2);
      if (m.er.skl014 && on(1, 4)) m.f.os = m.f.procs = m.f.cr3filter = true;
      bool stops = m.er.skl014 && !m.f.filters && on(2, 3); if (stops) m.f.stop = true;         // stop ranges only
      if (m.er.skl014) m.f.xmod = 1;
      if (m.es.bdm64) m.f.tsx = true;
      if (m.es.skd007) m.f.cyc = true;
      if (m.es.skd022) { m.f.os = m.f.vmx = true; m.f.far = false; if (on(2, 3)) m.f.cfe = false; }
      if (m.es.skz84) m.f.tsc = m.f.mtc = true;
      if (m.es.skd007 || m.es.skd010 || m.es.apl12 || m.es.apl11) { m.f.ovf = true; m.f.ovf_rate = sim.range(4, 40); }
      if (m.er.skd010) m.f.trig = false;                  // a TRIG's FUP after an overflow looks like tracing was enabled
      m.gen_program();
      if (stops) for (auto &x : m.prog.mods) x.tracestop = on(1, 3);
      if (m.er.skl014 && (m.f.filters || stops)) {      // filters are address ranges; at most four
          if (m.f.filters) for (bool again = true; again; ) { again = false; for (auto &x : m.prog.mods) for (auto &y : m.prog.mods) if (x.filtered_in && !y.filtered_in && x.base < y.base + y.code.size() && y.base < x.base + x.code.size()) y.filtered_in = again = true; }
          for (auto &x : m.prog.mods) x.tracestop &= stops || !x.filtered_in;
          for (bool again = true; again; ) { again = false; for (auto &x : m.prog.mods) for (auto &y : m.prog.mods) if (x.tracestop && !y.tracestop && x.base < y.base + y.code.size() && y.base < x.base + x.code.size()) x.tracestop = false, again = true; }
          auto ranges = [&] { u32 n = 0; for (auto &x : m.prog.mods) n += (m.f.filters && x.filtered_in) + x.tracestop; return n; };
          while (ranges() > 4) { auto &x = m.prog.mods[sim.d((u32) m.prog.mods.size())]; for (auto &y : m.prog.mods) if (x.base < y.base + y.code.size() && y.base < x.base + x.code.size()) { y.tracestop = false; if (m.f.filters) y.filtered_in = false; } }
          if (!ranges()) m.er.skl014 = m.es.skl014 = false;
      } else m.es.skl014 = false;
      m.run(); if (m.ambiguous) { sim.count("ambiguous"); } else {
      Code c(m); c.make(); RunOpt o; o.sync = (int) sim.d((u32) m.t.sync.size()); if (m.t.sync[o.sync].stale) o.sync = 0;
      switch (sim.d(m.layers ? 4 : 2)) { case 0: check_insn(m, c, o); break; case 1: o.end_on_call = on(1, 4); o.end_on_jump = on(1, 4); check_block(m, c, o); break; case 2: check_evt(m, o); break; case 3: check_qry(m, o); break; }
      sim.nontrivial = m.shown > 0; } }
    seam.check_released("end of run");
}
SCENARIO("C28", c28, "traces with documented errata");
