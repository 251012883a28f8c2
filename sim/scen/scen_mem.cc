// C22: allocations fail, one or many, anywhere.
#include "image_world.h"
#include <memory>
void sb_oom();

// Allocate something with failing allocations: nothing, and nothing left behind, or all of it.
template<class F, class G> static void try_alloc(const char *what, F make, G destroy)
{
    for (u32 n = 1; n < 12; n++) {
        size_t n0 = seam.live.size(); u64 f0 = seam.fired; seam.arm_at(F_ALLOC, n); auto p = make(); seam.disable_all(); bool hit = seam.fired != f0;
        if (!p) { if (!hit) sim.fail("refused", "%s fails", what); if (seam.live.size() != n0) sim.fail("leak-memory", "a failing %s leaves %zu allocation(s)", what, seam.live.size() - n0); sim.count("oom-reported"); continue; }
        if (hit) sim.fail("fault-ignored", "%s succeeds although an allocation it made failed", what);
        destroy(p); if (seam.live.size() != n0) sim.fail("leak-memory", "%s and free leave %zu allocation(s)", what, seam.live.size() - n0); return;
    }
}
static void objects(Machine &m)
{
    std::vector<u8> buf; pt_config cf = mkconfig(m, buf, RunOpt());
    switch (sim.d(8)) {
    case 0: try_alloc("pt_image_alloc", [&] { return LIB(pt_image_alloc(sim.d(2) ? "image" : nullptr)); }, [](pt_image *p) { LIB(pt_image_free(p)); }); break;
    case 1: try_alloc("pt_iscache_alloc", [&] { return LIB(pt_iscache_alloc(sim.d(2) ? "cache" : nullptr)); }, [](pt_image_section_cache *p) { LIB(pt_iscache_free(p)); }); break;
    case 2: try_alloc("pt_pkt_alloc_decoder", [&] { return LIB(pt_pkt_alloc_decoder(&cf)); }, [](pt_packet_decoder *p) { LIB(pt_pkt_free_decoder(p)); }); break;
    case 3: try_alloc("pt_evt_alloc_decoder", [&] { return LIB(pt_evt_alloc_decoder(&cf)); }, [](pt_event_decoder *p) { LIB(pt_evt_free_decoder(p)); }); break;
    case 4: try_alloc("pt_qry_alloc_decoder", [&] { return LIB(pt_qry_alloc_decoder(&cf)); }, [](pt_query_decoder *p) { LIB(pt_qry_free_decoder(p)); }); break;
    case 5: try_alloc("pt_insn_alloc_decoder", [&] { return LIB(pt_insn_alloc_decoder(&cf)); }, [](pt_insn_decoder *p) { LIB(pt_insn_free_decoder(p)); }); break;
    case 6: try_alloc("pt_blk_alloc_decoder", [&] { return LIB(pt_blk_alloc_decoder(&cf)); }, [](pt_block_decoder *p) { LIB(pt_blk_free_decoder(p)); }); break;
    default: try_alloc("pt_alloc_encoder", [&] { return LIB(pt_alloc_encoder(&cf)); }, [](pt_encoder *p) { LIB(pt_free_encoder(p)); }); break;
    }
}
static void arm(u32 spread) { Fault f = sim.d(5) ? F_ALLOC : sim.d(2) ? F_MMAP : F_FDOPEN; if (f == F_FDOPEN) seam.enable(F_MMAP, 1); if (sim.d(2)) seam.arm_at(f, 1 + sim.d(spread)); else seam.enable(f, 1 + sim.d(12)); }
// Decode with failing allocations: exact up to a reported error; with memory again, exact from any synchronisation point.
static void decoding()
{
    Machine m; m.gen_feat(); m.f.nsteps = std::min<u32>(m.f.nsteps, 120); if (sim.d(2)) { m.f.psb = true; m.f.psb_rate = sim.range(6, 40); } m.gen_program(); m.run();
    for (u32 n = sim.d(3); n > 0; n--) objects(m);
    Code c(m); Code::Opt co; co.callback = false; c.make(co); c.mem = true;
    if (c.isc && sim.d(2)) { static const u64 l[] = {0, 200, 1000, 5000}; LIB(pt_iscache_set_limit(c.isc, l[sim.d(4)])); }
    u32 rounds = sim.range(1, 2);
    while (rounds--) {
        bool blk = sim.p(2, 3); RunOpt o; o.tag = blk ? "block" : "insn"; o.end_on_call = sim.p(1, 4); o.end_on_jump = sim.p(1, 4);
        std::unique_ptr<FlowRun> r(blk ? (FlowRun *) new BlockRun(m, c, o) : new InsnRun(m, c, o)); auto sync = [&](int k) { return blk ? LIB(pt_blk_sync_set(((BlockRun *) r.get())->d, m.t.sync[k].off)) : LIB(pt_insn_sync_set(((InsnRun *) r.get())->d, m.t.sync[k].off)); };
        u32 errs = 0; arm(30);
        for (;;) {
            c.mem_mark = seam.fired; while (r->step()) c.mem_mark = seam.fired;
            bool oom = r->err < 0 && r->err != -pte_eos; if (oom) { errs++; if (seam.fired == c.mem_mark && !r->wild && !r->free_tail()) sim.fail("decode-error", "decode fails with -pte_%s without a fault", errname(r->err)); }
            if (!oom || errs > 6) break;
            if (sim.d(2)) { seam.disable_all(); if (sim.d(2)) arm(10); }
            int k = (int) sim.d((u32) m.t.sync.size()), st = sync(k); if (st < 0) { if (st == -pte_eos && m.t.sync[k].xi >= m.t.x.size()) break; if (sim.verbose) LOG("sync at %d: %s", k, errname(st)); sim.fail("decode-error", "synchronising: %s", errname(st)); } r->resync(k, st);
        }
        if (seam.fired) sim.nontrivial = true;
        seam.disable_all(); c.mem_mark = seam.fired;
        int k = (int) sim.d((u32) m.t.sync.size()); LOG("memory again, from sync %d", k); int st = sync(k); if (st >= 0) { r->resync(k, st); while (r->step()) {} } else if (st != -pte_eos) sim.fail("decode-error", "synchronising: %s", errname(st));
    }
    RunOpt o; if (sim.d(2)) check_block(m, c, o); else check_insn(m, c, o);
}
// Images, caches and reads.
static void images()
{
    World w; u32 n = 6 + sim.d(30);
    while (n--) {
        seam.disable_all(); World::Op o = w.gen(); if (!o.size) o.size = 1; LOG("%s", w.str(o).c_str()); int ex = w.expect(o); u64 f0 = seam.fired; if (o.k != 5) { if (sim.d(2)) seam.enable(F_ALLOC, 1 + sim.d(8)); else seam.arm_at(F_ALLOC, 1 + sim.d(6)); }
        int r = w.run(o); seam.disable_all(); bool hit = seam.fired != f0; sim.h((u64)(s64) r); LOG("  %s %d%s", errname(r), r, hit ? " (fault hit)" : "");
        if (o.bad || ex < 0) { if (r >= 0) sim.fail("accepted", "%s accepted, returns %d", w.str(o).c_str(), r); }
        else if (r < 0) { if (!hit) sim.fail("refused", "%s: %s", w.str(o).c_str(), errname(r)); sim.count("oom-reported"); w.check_some("after failing operation"); }
        else w.model(o, r);
        if (sim.d(2)) { w.io_faults = true; arm(6); w.check_some("reading without memory"); seam.disable_all(); w.io_faults = false; w.check_some("reading again"); }
    }
    w.io_faults = false; w.check_all("at the end"); sim.nontrivial = seam.fired > 0; w.release();
}
static void c22()
{
    seam.reset();
    switch (sim.weighted({5, 3, 3})) { case 0: decoding(); break; case 1: images(); break; default: sb_oom(); break; }
    seam.check_released("end of run");
}
SCENARIO("C22", c22, "allocations fail");
