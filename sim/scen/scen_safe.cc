// Any bytes as trace and code, any order of calls: no crash, no access outside, no runaway, always usable again.
#include "decode.h"
#include <algorithm>
#define X(v) ((unsigned long long)(v))

// ---- damaged and arbitrary trace
static void put(std::vector<u8> &d, std::initializer_list<u8> b) { d.insert(d.end(), b); }
static void rnd_bytes(std::vector<u8> &d, u32 n) { while (n--) d.push_back((u8) sim.d(256)); }
static void rnd_ip(std::vector<u8> &d, u8 op, const Machine &m) { static const u8 len[8] = {0,2,4,6,6,8,8,8}; u32 ipc = sim.d(7); if (ipc == 5) ipc = 6; d.push_back((u8)(op | ipc << 5)); u64 v = sim.p(3, 4) && !m.prog.mods.empty() ? [&] { auto &mod = sim.pick(m.prog.mods); return mod.base + sim.d((u32) mod.code.size()); }() : sim.d64(); for (int i = 0; i < len[ipc]; i++) d.push_back((u8)(v >> 8 * i)); }
void random_packet(std::vector<u8> &d, const Machine &m)
{
    switch (sim.d(34)) {
    case 0: d.push_back(0); break;
    case 1: case 2: case 3: { u8 t = (u8) sim.d(128); d.push_back((u8)(t << 1 & 0xfe ? t << 1 : 6)); } break;      // short tnt
    case 4: put(d, {2, 0xa3}); rnd_bytes(d, 6); break;
    case 5: case 6: rnd_ip(d, 0x0d, m); break; case 7: case 8: rnd_ip(d, 0x11, m); break; case 9: case 10: rnd_ip(d, 0x01, m); break; case 11: case 12: rnd_ip(d, 0x1d, m); break;
    case 13: put(d, {2, 0x43}); rnd_bytes(d, 6); break; case 14: d.push_back(0x19); rnd_bytes(d, 7); break;
    case 15: put(d, {2, 0x73}); rnd_bytes(d, 5); break; case 16: put(d, {0x59, (u8) sim.d(256)}); break;
    case 17: { u8 c = (u8) sim.d(256); d.push_back((u8)((c & ~7u) | 3 | (sim.d(3) ? 0 : 4))); u32 n = sim.d(4); for (; n--;) d.push_back((u8)(sim.d(128) << 1 | 1)); d.push_back((u8)(sim.d(128) << 1)); } break;
    case 18: put(d, {2, 3, (u8) sim.d(256), 0}); break; case 19: put(d, {2, 0xc8}); rnd_bytes(d, 5); break;
    case 20: put(d, {2, 0xc3, 0x88}); rnd_bytes(d, 8); break; case 21: put(d, {0x99, (u8) sim.d(256)}); break; case 22: put(d, {0x99, (u8)(sim.d(2) ? sim.d(8) : 0x20 + sim.d(4))}); break;
    case 23: put(d, {2, 0xf3}); break; case 24: put(d, {2, 0x83}); break; case 25: put(d, {2, 0x23}); break;
    case 26: case 27: for (u32 n = sim.p(1, 4) ? 1 + sim.d(20) : 8; n--;) put(d, {2, 0x82}); break;
    case 28: put(d, {2, (u8)(0x12 | sim.d(8) << 5)}); rnd_bytes(d, sim.d(2) ? 4 : 8); break; case 29: put(d, {2, 0xc2}); rnd_bytes(d, 8); break;
    case 30: switch (sim.d(4)) { case 0: put(d, {2, 0x22}); rnd_bytes(d, 2); break; case 1: put(d, {2, 0xa2}); rnd_bytes(d, 5); break; case 2: put(d, {2, (u8)(sim.d(2) ? 0x62 : 0xe2)}); break; case 3: d.push_back(0xd9); rnd_bytes(d, sim.d(5)); break; } break;
    case 31: put(d, {2, 0x13}); rnd_bytes(d, 2); break; case 32: put(d, {2, 0x53}); rnd_bytes(d, 9); break;
    case 33: put(d, {2, (u8) sim.d(256)}); rnd_bytes(d, sim.d(10)); break;
    }
}
std::vector<u8> damaged_trace(Machine &m)
{
    std::vector<u8> d = m.t.trace;
    for (u32 n = sim.d(6); n > 0; n--) {
        size_t a = sim.d((u32) d.size() + 1), len = std::min<size_t>(d.size() - a, 1 + sim.d(sim.p(1, 4) ? 300 : 10));
        switch (sim.d(8)) {
        case 0: for (size_t i = a; i < a + len; i++) d[i] = (u8) sim.d(256); sim.count("fault.bytes-garbled"); break;
        case 1: if (a < d.size()) d[a] ^= (u8)(1 << sim.d(8)); sim.count("fault.bit-flipped"); break;
        case 2: d.erase(d.begin() + a, d.begin() + a + len); sim.count("fault.bytes-lost"); break;
        case 3: { std::vector<u8> c(d.begin() + a, d.begin() + a + len); size_t b = sim.d((u32) d.size() + 1); d.insert(d.begin() + b, c.begin(), c.end()); sim.count("fault.bytes-duplicated"); } break;
        case 4: { std::vector<u8> c; for (u32 k = 1 + sim.d(12); k--;) random_packet(c, m); d.insert(d.begin() + a, c.begin(), c.end()); sim.count("fault.packets-inserted"); } break;
        case 5: d.resize(a); sim.count("fault.trace-cut"); break;
        case 6: { std::vector<u8> c; for (u32 k = 1 + sim.d(4); k--;) put(c, {2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82}); if (!m.t.sync.empty() && sim.d(2)) a = std::min<size_t>(sim.pick(m.t.sync).off, d.size()); d.insert(d.begin() + a, c.begin(), c.end()); sim.count("fault.psb-inserted"); } break;
        case 7: { size_t b = sim.d((u32) d.size() + 1), l2 = std::min<size_t>(d.size() - b, len); std::vector<u8> c(d.begin() + b, d.begin() + b + l2); for (size_t i = 0; i < l2 && a + i < d.size(); i++) d[a + i] = c[i]; sim.count("fault.bytes-overwritten"); } break;
        }
    }
    return d;
}
static std::vector<u8> random_trace(Machine &m)
{
    std::vector<u8> d; u32 n = 1 + sim.d(120); if (sim.p(3, 4)) put(d, {2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82,2,0x82});
    while (n--) { if (sim.p(1, 30)) rnd_bytes(d, 1 + sim.d(5)); random_packet(d, m); }
    sim.count("fault.random-packets"); return d;
}

// ---- damaged code
static void damage_code(Machine &m)
{
    for (auto &mod : m.prog.mods) {
        if (!sim.p(1, 3)) continue;
        sim.count("fault.code-damaged");
        if (sim.p(1, 6)) { for (auto &b : mod.code) b = (u8) sim.d(256); continue; }
        if (sim.p(1, 8)) { static const u8 loops[][6] = {{0xeb,0xfe},{0xe9,0xfb,0xff,0xff,0xff},{0x90,0xeb,0xfd},{0xe8,0,0,0,0},{0xeb,0,0xeb,0xfc}}; const u8 *l = loops[sim.d(5)]; size_t a = sim.d((u32) mod.code.size()); for (size_t i = 0; i < 6 && a + i < mod.code.size(); i++) mod.code[a + i] = l[i]; }
        for (u32 n = 1 + sim.d(20); n--;) mod.code[sim.d((u32) mod.code.size())] = (u8) sim.d(256);
    }
    if (sim.p(1, 6)) { Module mm; mm.base = sim.d(2) ? (u64) -4096 : 0; mm.code.assign(4096 - sim.d(2), 0); for (auto &b : mm.code) b = (u8)(sim.p(1, 8) ? sim.d(256) : 0x90); mm.file = "/sim/edge"; m.prog.mods.push_back(mm); }
}
static int bad_cb(uint8_t *buf, size_t size, const pt_asid *asid, uint64_t ip, void *ctx)
{
    (void) asid; (void) ip; (void) ctx; sim.count("callback-reads");
    switch (sim.d(6)) { case 0: return -pte_nomap; case 1: return 0; case 2: { size_t n = sim.d((u32) size + 1); for (size_t i = 0; i < n; i++) buf[i] = (u8) sim.d(256); return (int) n; } case 3: return -(int) (1 + sim.d(27)); default: for (size_t i = 0; i < size; i++) buf[i] = (u8)(sim.d(4) ? 0x90 : sim.d(256)); return (int) size; }
}

// ---- driver
struct Any {
    int which; void *d = nullptr; u64 size; u8 *evb = nullptr, *inb = nullptr; size_t evn, inn; int status = 0; bool synced = false; u64 last_ip = 0; bool have_ip = false;
    int sync(int how, u64 off) {
        uint64_t ip; uint64_t *pip = sim.d(4) ? &ip : nullptr;
        switch (which * 3 + how) {
        case 0: return LIB(pt_pkt_sync_forward((pt_packet_decoder *) d)); case 1: return LIB(pt_pkt_sync_backward((pt_packet_decoder *) d)); case 2: return LIB(pt_pkt_sync_set((pt_packet_decoder *) d, off));
        case 3: return LIB(pt_evt_sync_forward((pt_event_decoder *) d)); case 4: return LIB(pt_evt_sync_backward((pt_event_decoder *) d)); case 5: return LIB(pt_evt_sync_set((pt_event_decoder *) d, off));
        case 6: return LIB(pt_qry_sync_forward((pt_query_decoder *) d, pip)); case 7: return LIB(pt_qry_sync_backward((pt_query_decoder *) d, pip)); case 8: return LIB(pt_qry_sync_set((pt_query_decoder *) d, pip, off));
        case 9: return LIB(pt_insn_sync_forward((pt_insn_decoder *) d)); case 10: return LIB(pt_insn_sync_backward((pt_insn_decoder *) d)); case 11: return LIB(pt_insn_sync_set((pt_insn_decoder *) d, off));
        case 12: return LIB(pt_blk_sync_forward((pt_block_decoder *) d)); case 13: return LIB(pt_blk_sync_backward((pt_block_decoder *) d)); default: return LIB(pt_blk_sync_set((pt_block_decoder *) d, off));
        }
    }
    int off(uint64_t *o) { switch (which) { case 0: return pt_pkt_get_offset((pt_packet_decoder *) d, o); case 1: return pt_evt_get_offset((pt_event_decoder *) d, o); case 2: return pt_qry_get_offset((pt_query_decoder *) d, o); case 3: return pt_insn_get_offset((pt_insn_decoder *) d, o); default: return pt_blk_get_offset((pt_block_decoder *) d, o); } }
    int soff(uint64_t *o) { switch (which) { case 0: return pt_pkt_get_sync_offset((pt_packet_decoder *) d, o); case 1: return pt_evt_get_sync_offset((pt_event_decoder *) d, o); case 2: return pt_qry_get_sync_offset((pt_query_decoder *) d, o); case 3: return pt_insn_get_sync_offset((pt_insn_decoder *) d, o); default: return pt_blk_get_sync_offset((pt_block_decoder *) d, o); } }
    int event() { pt_event *e = (pt_event *) evb; switch (which) { case 2: return LIB(pt_qry_event((pt_query_decoder *) d, e, evn)); case 3: return LIB(pt_insn_event((pt_insn_decoder *) d, e, evn)); case 4: return LIB(pt_blk_event((pt_block_decoder *) d, e, evn)); default: return LIB(pt_evt_next((pt_event_decoder *) d, e, evn)); } }
    int next() {
        have_ip = false;
        switch (which) {
        case 0: { pt_packet p; memset(&p, 0xaa, sizeof p); int r = LIB(pt_pkt_next((pt_packet_decoder *) d, &p, sizeof p)); if (r > 0 && (r != p.size || r > 32)) sim.fail("packet-size", "pt_pkt_next returns %d for a packet of %d bytes", r, p.size); if (!r) sim.fail("packet-size", "pt_pkt_next returns a packet of no bytes"); return r; }
        case 1: return event();
        case 2: { int t; uint64_t ip; return sim.d(2) ? LIB(pt_qry_cond_branch((pt_query_decoder *) d, &t)) : LIB(pt_qry_indirect_branch((pt_query_decoder *) d, &ip)); }
        case 3: { pt_insn *in = (pt_insn *) inb; memset(inb, 0, inn); int r = LIB(pt_insn_next((pt_insn_decoder *) d, in, inn)); if (r >= 0 && inn >= 8) { last_ip = in->ip; have_ip = true; if (inn >= sizeof *in) if (in->size < 1 || in->size > 15) sim.fail("insn-size", "instruction of %d bytes at %llx", in->size, X(in->ip)); } return r; }
        default: { pt_block *b = (pt_block *) inb; memset(inb, 0, inn); int r = LIB(pt_blk_next((pt_block_decoder *) d, b, inn)); if (r >= 0 && inn >= 8) { last_ip = b->ip; have_ip = true; } return r; }
        }
    }
    void misc() {
        uint64_t t; uint32_t a, b, c; pt_asid as; as.size = sizeof as;
        switch (which) {
        case 2: (void) LIB(pt_qry_time((pt_query_decoder *) d, &t, sim.d(2) ? &a : nullptr, sim.d(2) ? &b : nullptr)); (void) LIB(pt_qry_core_bus_ratio((pt_query_decoder *) d, &c)); break;
        case 3: (void) LIB(pt_insn_time((pt_insn_decoder *) d, &t, &a, &b)); (void) LIB(pt_insn_core_bus_ratio((pt_insn_decoder *) d, &c)); (void) LIB(pt_insn_asid((pt_insn_decoder *) d, &as, sizeof as)); break;
        case 4: (void) LIB(pt_blk_time((pt_block_decoder *) d, &t, &a, &b)); (void) LIB(pt_blk_core_bus_ratio((pt_block_decoder *) d, &c)); (void) LIB(pt_blk_asid((pt_block_decoder *) d, &as, sizeof as)); break;
        }
    }
    void check(const char *what, int r) {
        sim.h((u64) r); uint64_t o, s; int ro = off(&o), rs = soff(&s);
        LOG("  %s: %s at %llx sync %llx", what, r < 0 ? errname(r) : "ok", ro < 0 ? -1ull : X(o), rs < 0 ? -1ull : X(s));
        if (ro >= 0 && o > size) sim.fail("position", "position %llx in a trace of %llx bytes after %s (%s)", X(o), X(size), what, errname(r));
        if (rs >= 0 && s > size) sim.fail("position", "sync position %llx in a trace of %llx bytes after %s (%s)", X(s), X(size), what, errname(r));
        if (r < 0 && (-r > pte_bad_cpu)) sim.fail("error-code", "%s returns %d, which is no error code", what, r);
        if (r == -pte_internal) sim.count("internal-errors");
        if (ro >= 0) sim.h(o);
    }
};
static void alloc_any(Any &a, int which, pt_config &cf, pt_image *img)
{
    a.which = which;
    switch (which) {
    case 0: a.d = LIB(pt_pkt_alloc_decoder(&cf)); break; case 1: a.d = LIB(pt_evt_alloc_decoder(&cf)); break; case 2: a.d = LIB(pt_qry_alloc_decoder(&cf)); break;
    case 3: a.d = LIB(pt_insn_alloc_decoder(&cf)); if (a.d) (void) LIB(pt_insn_set_image((pt_insn_decoder *) a.d, img)); break;
    default: a.d = LIB(pt_blk_alloc_decoder(&cf)); if (a.d) (void) LIB(pt_blk_set_image((pt_block_decoder *) a.d, img)); break;
    }
    if (!a.d) sim.fail("decoder-setup", "decoder allocation fails");
    static const size_t evs[] = {sizeof(pt_event), sizeof(pt_event), sizeof(pt_event), sizeof(pt_event) - 8, sizeof(pt_event) + 24, 24, 8}; static const size_t ins[] = {sizeof(pt_insn), sizeof(pt_insn), sizeof(pt_insn), sizeof(pt_insn) - 8, sizeof(pt_insn) + 24, 16};
    a.evn = evs[sim.d(7)]; a.inn = ins[sim.d(6)]; if (which == 4) a.inn = sim.p(1, 4) ? sizeof(pt_block) - 8 * sim.d(4) : sizeof(pt_block) + 16 * sim.d(2);
    a.evb = (u8 *) malloc(a.evn); a.inb = (u8 *) malloc(a.inn);       // exact size: the sanitizer guards the ends
}
static void free_any(Any &a)
{
    switch (a.which) { case 0: LIB(pt_pkt_free_decoder((pt_packet_decoder *) a.d)); break; case 1: LIB(pt_evt_free_decoder((pt_event_decoder *) a.d)); break; case 2: LIB(pt_qry_free_decoder((pt_query_decoder *) a.d)); break; case 3: LIB(pt_insn_free_decoder((pt_insn_decoder *) a.d)); break; default: LIB(pt_blk_free_decoder((pt_block_decoder *) a.d)); break; }
    free(a.evb); free(a.inb);
}
static void c06()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.nsteps = std::min<u32>(m.f.nsteps, 150); if (sim.d(2)) { m.f.psb = true; m.f.psb_rate = sim.range(6, 40); } m.gen_program(); m.run();
      if (sim.p(1, 3)) damage_code(m);
      Code c(m); Code::Opt co; co.callback = false; c.make(co); if (sim.p(1, 3)) (void) LIB(pt_image_set_callback(c.img, bad_cb, nullptr));
      if (sim.p(1, 8)) { auto &mod = sim.pick(m.prog.mods); pt_asid as = asid_of(m, mod); (void) LIB(pt_image_remove_by_filename(c.img, mod.file.c_str(), &as)); sim.count("fault.code-missing"); }
      std::vector<u8> d = sim.p(1, 3) ? random_trace(m) : damaged_trace(m); u64 size = d.size(); LOG("trace of %llx bytes: %s", X(size), hexs(d.data(), std::min<size_t>(size, 4000)).c_str());
      u8 *buf = (u8 *) malloc(size ? size : 1); memcpy(buf, d.data(), size); struct G { u8 *b; ~G() { free(b); } } g{buf};
      pt_config cf; m.config(&cf); cf.begin = buf; cf.end = buf + size; if (!size) return;
      u64 codesize = 64; for (auto &mod : m.prog.mods) codesize += mod.code.size();
      if (sim.p(1, 4)) { u32 v = (u32) sim.dbits(16); memcpy(&cf.errata, &v, 2); } if (sim.p(1, 6)) { cf.mtc_freq = (u8) sim.d(16); cf.nom_freq = (u8) sim.d(256); cf.cpuid_0x15_eax = sim.d(4); cf.cpuid_0x15_ebx = sim.d(4); }
      Any a; int which = (int) sim.d(5); a.size = size;
      switch (which) { case 1: cf.flags.variant.event.keep_tcal_on_ovf = sim.d(2); cf.flags.variant.event.enable_iflags_events = sim.d(2); break; case 2: cf.flags.variant.query.keep_tcal_on_ovf = sim.d(2); cf.flags.variant.query.enable_iflags_events = sim.d(2); break;
      case 3: cf.flags.variant.insn.enable_tick_events = sim.d(2); cf.flags.variant.insn.enable_iflags_events = sim.d(2); break; case 4: cf.flags.variant.block.enable_tick_events = sim.d(2); cf.flags.variant.block.enable_iflags_events = sim.d(2); cf.flags.variant.block.end_on_call = sim.d(2); cf.flags.variant.block.end_on_jump = sim.d(2); break; }
      alloc_any(a, which, cf, c.img); struct F { Any &a; ~F() { free_any(a); } } fa{a};
      u64 calls = 0, s0 = sim.steps; u32 mode = sim.d(3);
      if (mode < 2) { // the documented loop, from synchronisation point to synchronisation point
          int st = a.sync(mode == 1 && sim.d(2) ? 1 : 0, 0); a.check("sync", st); bool back = false; u32 rounds = 0;
          for (;;) {
              if (st < 0) { if (st == -pte_eos) break; st = a.sync(back, 0); a.check("sync", st); if (++rounds > size + 16) sim.fail("no-progress", "synchronising does not get to the end of the trace"); continue; }
              u64 lastoff = ~0ull, since = 0; u64 loop_ip = 0; u32 seen = 0; u32 lim = sim.p(1, 4) ? 1 + sim.d(50) : 1u << 20;
              for (;;) {
                  if (!lim-- || sim.steps - s0 > 15000000) break;
                  int r = (st & pts_event_pending) && which > 1 ? a.event() : a.next(); calls++;
                  if (which == 2 && r == -pte_bad_query && sim.p(3, 4)) { uint64_t o; if (a.off(&o) >= 0 && o == lastoff && ++since > 200) break; continue; }
                  a.check("next", r); if (sim.verbose && a.have_ip) LOG("    %llx", X(a.last_ip)); if (sim.p(1, 16)) a.misc(); if (r < 0) { LOG("  %s", errname(r)); break; } st = r;
                  uint64_t o = 0; (void) a.off(&o); if (o != lastoff) { lastoff = o; since = 0; seen = 0; loop_ip = a.last_ip; }
                  else { since++; if (a.have_ip && a.last_ip == loop_ip && ++seen > 64) { sim.count("code-loops-without-branches"); break; } if (!(since & since - 1)) { loop_ip = a.last_ip; seen = 0; }
                      if (since > 128 * codesize + 100000) sim.fail("no-progress", "%llu calls without progress in the trace at %llx", X(since), X(o)); }
              }
              st = a.sync(back = (mode == 1 && sim.p(1, 3)), 0); a.check("sync", st); if (mode == 0 && ++rounds > size + 16) sim.fail("no-progress", "synchronising forward does not get to the end of the trace"); if (mode == 1 && ++rounds > 60) break;
          }
      } else for (u32 n = 20 + sim.d(400); n > 0 && sim.steps - s0 < 60000000; n--) { // anything in any order
          int r; switch (sim.d(12)) { case 0: r = a.sync(0, 0); a.check("sync_forward", r); break; case 1: r = a.sync(1, 0); a.check("sync_backward", r); break; case 2: r = a.sync(2, sim.p(1, 6) ? sim.d64() : sim.d((u32) size + 20)); a.check("sync_set", r); break; case 3: if (which) { r = a.event(); a.check("event", r); } break; case 4: a.misc(); break; default: r = a.next(); a.check("next", r); break; }
          calls++;
      }
      if (sim.p(1, 3)) { // from here to one end of the trace
          int how = sim.d(2); u64 n = 0; uint64_t was = ~0ull; sim.count(how ? "walk-backward" : "walk-forward");
          for (int r = 0; r != -pte_eos; n++) {
              r = a.sync(how, 0); a.check("walk", r); if (r == -pte_nosync || r == -pte_bad_config || r == -pte_nomem) break;
              if (n > size / 2 + 16) sim.fail("no-progress", "%llu times synchronising %s do not get through a trace of %llx bytes", X(n), how ? "backward" : "forward", X(size));
              uint64_t so = ~0ull; if (r == -pte_eos || a.soff(&so) < 0) continue;
              if (so == was) { u32 k = 2; if (which > 2 && how) { k = 0; pt_event_decoder *e = LIB(pt_evt_alloc_decoder(&cf)); pt_event ev; if (e && LIB(pt_evt_sync_set(e, so)) >= 0) while (k < 2 && LIB(pt_evt_next(e, &ev, sizeof ev)) >= 0 && ev.status_update) k++; if (e) LIB(pt_evt_free_decoder(e)); }
                  sim.fail("no-progress", k < 2 ? "synchronising backward arrives at the same PSB+ again, as the instruction flow or block decoder reads past a PSB+ with less than two status events" : "synchronising %s arrives at %llx again", how ? "backward" : "forward", X(so)); }
              was = so;
          }
      }
      sim.count("calls", calls); sim.nontrivial = calls > 8; }
    seam.check_released("end of run");
}
SCENARIO("C06", c06, "damaged trace and code, any order of calls");
