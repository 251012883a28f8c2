// C11: reported time against the simulated clock.
#include "decode.h"
#include <algorithm>
#include <cmath>
#define X(v) ((unsigned long long)(v))

// What can be known about the time after a number of timing packets: bounds from the simulated clock.
struct TState { u64 off = 0; bool has = false, check = true; double lo = 0, hi = 0; u32 lost_cyc = 0, lost_mtc = 0; int cbr = -1; bool loose = false; };
struct TModel { std::vector<TState> s; size_t at(u64 off) const { size_t a = 0; while (a + 1 < s.size() && s[a + 1].off <= off) a++; return a; } };
static TModel model(const Machine &m, int k, bool keep, bool nonom, bool nocpuid)
{
    TModel tm; TState c; c.off = m.t.sync[k].off; tm.s.push_back(c);
    const Feat &f = m.f; double P = (double)((u64) 1 << f.mtc_freq) * f.ebx / f.eax, r = (double) f.nom;
    bool cal = false, cmtc = false; double rel = 0; u64 cyc_m = 0, cyc_t = 0; bool ttsc = false; u64 tsc0 = 0, mtc_cal = 0;
    bool anchored = false, lossy = false; u32 nm = 0, nc = 0; u64 lastm = 0; u64 lastcyc = 0, gap = 0; double base = 0, sgap = 0, eacc = 0; bool wild = false, wl = false, hdr = false;
    for (auto &t : m.t.tim) {
        if (t.off <= m.t.sync[k].off) continue;
        c.off = t.off;
        // CYC that does not precede every MTC is distributed over periods by a calibration that may be far off: no bound before the next MTC or TSC
        if (t.kind == TK_TSC) wl = false; if (t.kind == TK_CYC && wild) wl = true; if (t.kind == TK_CYC && (wl || nocpuid || !f.cycx)) c.loose = true; else if (t.kind == TK_TSC || (t.kind == TK_MTC && !wl && !nocpuid)) c.loose = false;
        switch (t.kind) {
        case TK_PSB: hdr = true; break;      // until the TSC in it
        case TK_TSC:
            if (hdr) { if (ttsc && cyc_t && !cmtc) { cal = true; rel = 1.0 / cyc_t + 0.01 + (double) cyc_t / 256 / std::max<double>(1, (double)(t.clk - tsc0)) + (double)(f.maxadv + (f.cycthr + 1) * r / 8) * (f.cycx ? 0 : 1) / std::max<double>(1, (double)(t.clk - tsc0)); } hdr = false; }
            ttsc = true; tsc0 = t.clk; cyc_t = 0;
            c.has = true; c.check = true; c.lo = c.hi = (double) t.clk; c.lost_cyc = c.lost_mtc = 0; anchored = true; lossy = false; nm = nc = 0; sgap = eacc = 0; lastm = t.clk; if (f.cycx) lastcyc = t.clk; base = (double) t.clk; break;
        case TK_MTC:
            if (nocpuid) { cmtc = true; cyc_m = 0; if (c.has) c.lost_mtc++, c.lost_cyc = 0; break; }
            // calibration
            if (!cmtc) { cmtc = true; cyc_m = 0; mtc_cal = t.clk; }
            else if (cyc_m) { cal = true; wild = (double)(t.clk - mtc_cal) > 250 * P; double n = (double) cyc_m; rel = 2.0 / n + 0.01 + n / 256 / std::max<double>(1, (double)(t.clk - mtc_cal)) + (f.cycx ? 0 : (double)(f.maxadv * 3 + f.cycthr * r / 8 * 2) / std::max<double>(1, (double)(t.clk - mtc_cal))); cyc_m = 0; mtc_cal = t.clk; }
            if (!c.has) break;
            if ((double)(t.clk - lastm) > 250 * P) { anchored = false; c.check = false; }
            lastm = t.clk; c.lost_cyc = 0; nm++; nc = 0; eacc = 0; lossy = false; if (!anchored) break;
            c.lo = (double) t.clk - nm - 1; c.hi = (double) t.clk + 1; base = (double) t.clk; break;
        case TK_CYC:
            cyc_m += t.v; cyc_t += t.v; if (!cal) { c.lost_cyc++; break; }
            nc++; gap = t.clk - lastcyc; if (nc == 1 && !f.cycx) sgap = (double) gap; lastcyc = t.clk;
            { eacc += std::max<double>((double) gap, 0) * rel + 1; double e = 1.3 * eacc + r / 8 + 4 + nm; if (!f.cycx) e += (f.mtc ? 2 * P : 0) + 3.0 * f.maxadv + f.cycthr * r / 4 + gap * (rel + 0.05) + sgap * (1 + rel); if (c.lost_cyc) lossy = true;
              c.hi = std::max((double) t.clk, base) + e; c.lo = lossy ? base - nm - 2 : std::min((double) t.clk - e, c.hi); if (c.lo < base - nm - 2 && (f.cycx || !f.mtc)) c.lo = base - nm - 2; }
            break;
        case TK_CBR: if (!(t.v & 0x100)) wild = false;
            c.cbr = (int)(t.v & 0xff); if (!(t.v & 0x100)) { cmtc = false; cyc_m = cyc_t = 0; ttsc = false; }
            if (nonom) { if (!(t.v & 0x100)) cal = false; lossy = true; break; } cal = true; rel = 0.005 + (double)(t.v & 0xff) / 256 / r; eacc += r / 8; if (!(t.v & 0x100) && f.cycthr) lossy = true; break;
        case TK_OVF: if (!keep) cal = wild = false; cmtc = ttsc = false; cyc_m = cyc_t = 0; lossy = true; if (f.cyc && !f.mtc) lossy = true; break;
        }
        tm.s.push_back(c);
    }
    return tm;
}
struct TSample { bool has; u64 tsc; u32 lm, lc; size_t lo, hi; };
static bool fits(const TState &s, bool has, u64 tsc, u32 lm, u32 lc) { if (has != s.has || lm != s.lost_mtc || (lc != s.lost_cyc && !s.loose)) return false; return !has || !s.check || s.loose || ((double) tsc >= s.lo - 0.5 && (double) tsc <= s.hi + 0.5); }

struct Obs : TimeObs {
    Machine &m; const std::vector<TSample> &T; size_t li; std::vector<size_t> evl; u64 prev = 0; bool blk; u32 ticks = 0; TModel &tm; FlowRun *fr = nullptr; u64 last = 0;
    Obs(Machine &m_, const std::vector<TSample> &t, size_t l, TModel &tm_, bool b) : m(m_), T(t), li(l), blk(b), tm(tm_) { evl.resize(m.t.ev.size()); for (size_t i = 0; i < m.t.layer.size(); i++) if (m.t.layer[i].kind == 2) evl[m.t.layer[i].v] = i; }
    void on(const pt_event &e, size_t evi, size_t) override {
        if (e.type == ptev_tick) {
            ticks++; sim.count("tick-events");
            if (e.tsc == last && T.size()) sim.fail("time-tick", "tick event at time %llx, which was reported before", X(e.tsc));
            size_t i = li; while (i < T.size() && !(m.t.layer[i].kind != 2 && T[i].tsc == e.tsc && T[i].has == e.has_tsc && T[i].lc == e.lost_cyc && T[i].lm == e.lost_mtc)) i++;
            if (i >= T.size()) sim.fail("time-tick", "tick event with time %llx (%d, %u, %u), which no branch from item %zu on has", X(e.tsc), e.has_tsc, e.lost_mtc, e.lost_cyc, li);
            skip(i); li = i; last = e.tsc; return;
        }
        size_t i = evl[evi]; if (i >= T.size()) return; const TSample &t = T[i];
        if ((bool) e.has_tsc != t.has || (e.tsc != t.tsc) || e.lost_mtc != t.lm || e.lost_cyc != t.lc) sim.fail("time-mismatch", "event #%zu %s: time %llx (%d, lost %u %u), event layer %llx (%d, lost %u %u)", evi, ev_str(e).c_str(), X(e.tsc), e.has_tsc, e.lost_mtc, e.lost_cyc, X(t.tsc), t.has, t.lm, t.lc);
        skip(i); li = i + 1; last = e.tsc;
    }
    // every branch whose time differs from the time reported last must have had a tick of its own
    void skip(size_t i) { if (!tick) return; for (size_t j = li; j < i; j++) { if (m.t.layer[j].kind == 2) continue; if (T[j].has && T[j].tsc != last) sim.fail("time-tick", "%s decoder: no tick event for the branch at item %zu, whose time %llx differs from the last reported %llx", blk ? "block" : "insn", j, X(T[j].tsc), X(last)); if (T[j].has) n_quiet++; } }
    bool tick = false; u32 n_quiet = 0;
    void after(FlowRun &) override {}
};

static void c11()
{
    seam.reset();
    { Machine m; m.gen_feat(); Feat &f = m.f;
      f.tsc = sim.p(9, 10); f.mtc = f.tsc && sim.p(2, 3); f.cyc = sim.p(1, 2); f.cbr = sim.p(2, 3); f.cycx = sim.p(3, 4); f.cycthr = f.cycx || sim.d(2) ? 0 : sim.range(2, 200); f.psb_rate = sim.range(10, 60); f.psb = sim.p(3, 4); f.misc_rate = sim.range(4, 40);
      f.mtc_freq = (u8) sim.d(sim.p(1, 3) ? 14 : 7); f.eax = 1 + sim.d(4); f.ebx = f.eax * (1 + sim.d(sim.p(1, 4) ? 300 : 30)) + sim.d(5); f.nom = (u8) sim.range(8, 60); f.maxadv = sim.p(1, 3) ? sim.range(2, 3000) : 40; m.er.skl168 = sim.p(1, 4);       // told about the erratum, which does not show
      m.gen_program(); m.run(); Code c(m); c.make();
      int k = (int) sim.d((u32) m.t.sync.size()); if (!sim.p(1, 4)) k = 0; bool keep = sim.p(1, 3), nonom = sim.p(1, 6), nocpuid = sim.p(1, 10);
      TModel tm = model(m, k, keep, nonom, nocpuid); if (sim.verbose) { double P = (double)((u64) 1 << f.mtc_freq) * f.ebx / f.eax; LOG("period %g ratio %u/%u nom %u freq %u cycx %d thr %u maxadv %u", P, f.ebx, f.eax, f.nom, f.mtc_freq, f.cycx, f.cycthr, f.maxadv); for (auto &t : m.t.tim) LOG("  timing %llx kind %d clk %llx v %llx", X(t.off), t.kind, X(t.clk), X(t.v)); for (auto &s : tm.s) LOG("  state %llx has %d check %d lo %.1f hi %.1f lost %u", X(s.off), s.has, s.check, s.lo, s.hi, s.lost_cyc); }
      RunOpt o; o.sync = k; o.nonom = nonom; o.nocpuid = nocpuid; std::vector<TSample> T; u64 worst = 0;
      { // event layer against the clock
        std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); cf.flags.variant.event.enable_iflags_events = f.iflags_ev; cf.flags.variant.event.keep_tcal_on_ovf = keep;
        pt_event_decoder *d = LIB(pt_evt_alloc_decoder(&cf)); if (!d) sim.fail("decoder-setup", "pt_evt_alloc_decoder fails"); struct G { pt_event_decoder *d; ~G() { LIB(pt_evt_free_decoder(d)); } } g{d};
        int r = LIB(pt_evt_sync_set(d, m.t.sync[k].off)); if (r < 0) sim.fail("decode-error", "event layer: sync: %s", errname(r));
        size_t a = 0; T.resize(m.t.sync[k].layer); u64 lasttsc = 0; 
        for (;;) {
            pt_event e; memset(&e, 0xaa, sizeof e); r = LIB(pt_evt_next(d, &e, sizeof e)); if (r < 0) { if (r != -pte_eos) sim.fail("decode-error", "event layer: -pte_%s", errname(r)); break; }
            uint64_t off = 0; LIB(pt_evt_get_offset(d, &off)); size_t b = tm.at(off); bool ok = false;
            for (size_t i = a; i <= b && !ok; i++) ok = fits(tm.s[i], e.has_tsc, e.tsc, e.lost_mtc, e.lost_cyc);
            LOG("  event layer %s at %llx: time %llx (%llu) has %d lost %u %u, packets %zu..%zu", ev_name(e.type), X(off), X(e.tsc), X(e.tsc), e.has_tsc, e.lost_mtc, e.lost_cyc, a, b); sim.h(e.tsc);
            if (!ok) sim.fail("time-wrong", "%s at %llx: time %llu has %d lost mtc %u cyc %u; expected %.0f..%.0f has %d lost cyc %u", ev_name(e.type), X(off), X(e.tsc), e.has_tsc, e.lost_mtc, e.lost_cyc, tm.s[b].lo, tm.s[b].hi, tm.s[b].has, tm.s[b].lost_cyc);
            if (e.has_tsc && !f.cyc && e.tsc + 1 + m.t.tim.size() < lasttsc) sim.fail("time-backwards", "time goes from %llx to %llx", X(lasttsc), X(e.tsc));
            if (e.has_tsc) lasttsc = e.tsc;
            worst = std::max<u64>(worst, (u64)(tm.s[b].hi - tm.s[b].lo));
            TSample s{(bool) e.has_tsc, e.tsc, e.lost_mtc, e.lost_cyc, a, b}; for (u32 n = e.type == ptev_tnt ? e.variant.tnt.size : 1; n > 0; n--) T.push_back(s); a = b;
        }
        if (T.size() != m.t.layer.size()) sim.fail("layer-mismatch", "event layer: %zu of %zu items", T.size(), m.t.layer.size());
      }
      auto cbr_ok = [&](const TSample &s, int r, u32 v) { for (size_t i = s.lo; i <= s.hi; i++) if (tm.s[i].cbr < 0 ? r == -pte_no_cbr : r >= 0 && (int) v == tm.s[i].cbr) return true; return false; };
      switch (sim.d(3)) {
      case 0: { // query layer: time and ratio after every answer
        std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); cf.flags.variant.query.enable_iflags_events = f.iflags_ev; cf.flags.variant.query.keep_tcal_on_ovf = keep;
        pt_query_decoder *d = LIB(pt_qry_alloc_decoder(&cf)); if (!d) sim.fail("decoder-setup", "pt_qry_alloc_decoder fails"); struct G { pt_query_decoder *d; ~G() { LIB(pt_qry_free_decoder(d)); } } g{d};
        uint64_t ip; int st = LIB(pt_qry_sync_set(d, &ip, m.t.sync[k].off)); if (st < 0) sim.fail("decode-error", "query layer: sync: %s", errname(st));
        for (size_t i = m.t.sync[k].layer; i < T.size(); i++) {
            LItem &l = m.t.layer[i]; pt_event e; int t; if (l.kind == 2) { st = LIB(pt_qry_event(d, &e, sizeof e)); if (st >= 0 && (e.tsc != T[i].tsc || (bool) e.has_tsc != T[i].has || e.lost_cyc != T[i].lc || e.lost_mtc != T[i].lm)) sim.fail("time-mismatch", "query layer: item %zu %s: time %llx, event layer %llx", i, ev_str(e).c_str(), X(e.tsc), X(T[i].tsc)); }
            else if (l.kind == 0) st = LIB(pt_qry_cond_branch(d, &t)); else st = LIB(pt_qry_indirect_branch(d, &ip));
            if (st < 0) sim.fail("decode-error", "query layer: -pte_%s at item %zu", errname(st), i);
            uint64_t tsc = 0; uint32_t lm = 77, lc = 77; int r = LIB(pt_qry_time(d, &tsc, &lm, &lc)); TSample &s = T[i]; bool same = (r >= 0) == s.has && tsc == s.tsc && lm == s.lm && lc == s.lc; if (r < 0 && r != -pte_no_time) sim.fail("time-mismatch", "query layer: pt_qry_time: %s", errname(r));
            if (!same) { bool ok = false; for (size_t j = s.lo; j <= s.hi && !ok; j++) ok = fits(tm.s[j], r >= 0, tsc, lm, lc); if (!ok) sim.fail("time-mismatch", "query layer: time after item %zu is %llu (%s, lost %u %u), event layer %llu (%d, %u %u)", i, X(tsc), errname(r), lm, lc, X(s.tsc), s.has, s.lm, s.lc); }
            uint32_t v = 0; r = LIB(pt_qry_core_bus_ratio(d, &v)); if (!cbr_ok(s, r, v)) sim.fail("ratio-wrong", "query layer: core:bus ratio after item %zu is %u (%s), recorded %d", i, v, errname(r), tm.s[s.hi].cbr);
        } } break;
      default: { bool blk = sim.d(2); o.tick = sim.p(2, 3); o.tag = blk ? "block" : "insn"; o.keep_tcal = keep; Obs ob(m, T, m.t.sync[k].layer, tm, blk); o.tobs = &ob; std::unique_ptr<FlowRun> r(blk ? (FlowRun *) new BlockRun(m, c, o) : new InsnRun(m, c, o)); ob.fr = r.get(); ob.tick = o.tick;
                    while (r->step()) {
              if (r->xi >= r->must() || r->tailed) continue;
              uint64_t tsc = 0; uint32_t lm = 0, lc = 0, v = 0; pt_insn_decoder *id = blk ? nullptr : ((InsnRun *) r.get())->d; pt_block_decoder *bd = blk ? ((BlockRun *) r.get())->d : nullptr;
              int q = blk ? LIB(pt_blk_time(bd, &tsc, &lm, &lc)) : LIB(pt_insn_time(id, &tsc, &lm, &lc)); { uint64_t t2 = 1; int q2 = blk ? LIB(pt_blk_time(bd, &t2, nullptr, nullptr)) : LIB(pt_insn_time(id, &t2, nullptr, nullptr)); if (q2 != q || t2 != tsc) sim.fail("time-mismatch", "%s layer: time without lost-packet arguments is %llu (%s), with them %llu (%s)", o.tag, X(t2), errname(q2), X(tsc), errname(q)); }
              int w = blk ? LIB(pt_blk_core_bus_ratio(bd, &v)) : LIB(pt_insn_core_bus_ratio(id, &v));
              uint64_t off = 0; blk ? LIB(pt_blk_get_offset(bd, &off)) : LIB(pt_insn_get_offset(id, &off));
              size_t b = tm.at(off); bool ok = false; for (size_t i = 0; i <= b && !ok; i++) ok = fits(tm.s[b - i], q >= 0, tsc, lm, lc); if (q == -pte_no_time && !ok && !ob.last && !tsc) ok = true;
              if (!ok) sim.fail("time-mismatch", "%s layer: time at %llx is %llu (%s, lost %u %u), which no packet so far explains", o.tag, X(off), X(tsc), errname(q), lm, lc);
              ok = false; for (size_t i = 0; i <= b && !ok; i++) ok = tm.s[b - i].cbr < 0 ? w == -pte_no_cbr : w >= 0 && (int) v == tm.s[b - i].cbr; if (!ok) sim.fail("ratio-wrong", "%s layer: core:bus ratio at %llx is %u (%s)", o.tag, X(off), v, errname(w));
          } sim.count("branches-without-tick", ob.n_quiet); } break;
      }
      sim.count("time-points", T.size()); sim.count("timing-packets", m.t.tim.size()); sim.nontrivial = m.t.tim.size() > 3; sim.count(worst < 10 ? "bound-under-10" : worst < 200 ? "bound-under-200" : worst < 2000 ? "bound-under-2000" : "bound-larger"); }
    seam.check_released("end of run");
}
SCENARIO("C11", c11, "time against the simulated clock");
