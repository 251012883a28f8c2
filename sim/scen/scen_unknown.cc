// C29: packets libipt does not know are handed to the user's decode callback and skipped, at every layer.
#include "decode.h"
static unsigned long long X(u64 v) { return v; }

// Size of the packet at p (the trace is the simulated machine's).
static size_t pkt_len(const u8 *p)
{
    static const u8 ipl[8] = { 0, 2, 4, 6, 6, 0, 8, 0 }; u8 o = p[0];
    if (!o) return 1;
    if (!(o & 1)) { if (o != 2) return 1;
        u8 x = p[1]; if ((x & 0x1f) == 0x12) return (x >> 5 & 3) ? 10 : 6;
        switch (x) { case 0x82: return 16; case 0xa3: return 8; case 0x43: return 8; case 0xc8: return 7; case 0x73: return 7; case 0x03: return 4; case 0xf3: case 0x23: case 0x83: case 0x62: case 0xe2: return 2; case 0xc2: return 10; case 0x22: return 4; case 0xa2: return 7; case 0x13: return 4; case 0x53: return 11; case 0xc3: return 11; }
        sim.fail("simulator", "simulator bug: packet 02 %02x", x); }
    if ((o & 3) == 3) { size_t n = 1; if (o & 4) do n++; while (p[n - 1] & 1); return n; }
    switch (o) { case 0x99: return 2; case 0x59: return 2; case 0x19: return 8; case 0xd9: return p[1] & 0x40 ? 5 : p[1] & 0x80 ? 5 : 3; }
    switch (o & 0x1f) { case 0x1d: case 0x0d: case 0x11: case 0x01: return 1 + ipl[o >> 5]; }
    sim.fail("simulator", "simulator bug: packet %02x", o);
}

// The user: knows the new packets.
struct NewCpu {
    struct Pk { u64 off; std::vector<u8> b; u64 calls = 0; };
    std::vector<Pk> pk; u64 ncall = 0, nth = 0; int err = 0, over = 0; bool patch = false; u64 last = ~0ull; bool fired = false; const std::vector<u8> *buf = nullptr;
    static int cb(pt_packet_unknown *u, const pt_config *c, const uint8_t *pos, void *ctx)
    {
        NewCpu *n = (NewCpu *) ctx; sim.count("unknown-callbacks");
        if (!c || c->decode.context != ctx || c->decode.callback != cb || c->size < sizeof(pt_config)) sim.fail("callback", "decode callback: not the user's configuration");
        if (pos < c->begin || pos >= c->end) sim.fail("callback", "decode callback: position outside of the trace");
        if (!u || u->packet != pos || u->priv) sim.fail("callback", "decode callback: the packet is not initialised");
        u64 off = pos - c->begin; Pk *k = nullptr; for (auto &x : n->pk) if (x.off == off) k = &x;
        if (!k) sim.fail("callback", "decode callback called at %llx, where there is no unknown packet", X(off));
        if (memcmp(pos, k->b.data(), k->b.size())) sim.fail("callback", "decode callback: other bytes at %llx", X(off));
        n->last = off; k->calls++; n->ncall++; u->priv = k; sim.h(off);
        if (n->nth && n->ncall >= n->nth && n->err) { n->fired = true; sim.count("fault.decode-callback-error"); return n->err; }
        if (n->nth && n->ncall >= n->nth && n->over) { n->fired = true; sim.count("fault.decode-callback-size"); return n->over > 255 ? n->over : (int) std::min<u64>(255, c->end - pos + 1 + (n->over & 7)); }
        if (n->patch) { memset((void *) pos, 0, k->b.size()); sim.count("unknown-patched"); return 0; }
        return (int) k->b.size();
    }
};
static std::vector<u8> unknown_packet()
{
    std::vector<u8> b; switch (sim.d(3)) { case 0: { static const u8 o[] = { 0x39, 0x79, 0x05, 0x09, 0x15, 0x25, 0xb9, 0xf9, 0xc5, 0xe9 }; b.push_back(o[sim.d(sizeof o)]); } break; case 1: { static const u8 o[] = { 0x0b, 0x00, 0xff, 0x33, 0x63, 0xb3, 0xd3, 0xe3, 0x42, 0x02 }; b.push_back(2); b.push_back(o[sim.d(sizeof o)]); } break; default: b.push_back(2); b.push_back(0xc3); b.push_back((u8)(sim.d(2) ? 0x11 : 0x89 + sim.d(0x70))); }
    u32 n = sim.p(1, 20) ? sim.d(252) : sim.d(10); while (n-- && b.size() < 255) b.push_back((u8) sim.dbits(8)); if (b.back() == 2 || b.back() == 0x82) b.back() = 0;       // must not become part of a synchronisation pattern
    for (size_t i = 1; i + 1 < b.size(); i++) if (b[i] == 2 && b[i + 1] == 0x82) b[i + 1] = 0;
    return b;
}

static void c29()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.gen_program(); m.run(); Code c(m); NewCpu n; std::vector<u8> d; std::vector<u64> bound;
      u32 rate = sim.pick(std::vector<u32>{2, 5, 20, 100}); const std::vector<u8> &t = m.t.trace; size_t first = m.t.sync.empty() ? 0 : m.t.sync[0].off;
      for (size_t i = 0; i < t.size(); ) { size_t l = std::min(pkt_len(&t[i]), t.size() - i);
          while (i > first && sim.d(rate) == 0) { NewCpu::Pk k; k.off = d.size(); k.b = unknown_packet(); d.insert(d.end(), k.b.begin(), k.b.end()); n.pk.push_back(k); }
          bound.push_back(d.size()); d.insert(d.end(), t.begin() + i, t.begin() + i + l); i += l; }
      if (n.pk.empty() || m.t.sync.empty()) return;
      LOG("%zu unknown packets in %zu bytes", n.pk.size(), d.size()); sim.count("unknown-packets", n.pk.size());
      RunOpt o; o.data = &d; o.decode = NewCpu::cb; o.decode_ctx = &n; n.patch = !m.f.ovf && sim.p(1, 6); sim.nontrivial = true;
      switch (sim.d(6)) {
      case 0: { // packet layer: every packet at its place, the user's ones with what the callback left
          std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); int mode = (int) sim.d(3); if (mode) { n.patch = false; n.nth = 1 + sim.d((u32) n.pk.size()); if (mode == 1) n.err = -(int)(1 + sim.d(30)); else n.over = sim.d(2) ? 1 + (int) sim.d(8) : 256 + (int) sim.d(70000); }
          pt_packet_decoder *k = LIB(pt_pkt_alloc_decoder(&cf)); if (!k) sim.fail("decoder-setup", "pt_pkt_alloc_decoder fails"); struct G { pt_packet_decoder *d; ~G() { LIB(pt_pkt_free_decoder(d)); } } g{k};
          int r = LIB(pt_pkt_sync_forward(k)); if (r < 0) sim.fail("decode-error", "packet layer: sync: %s", errname(r)); size_t bi = 0, pi = 0; uint64_t at = 0; pt_pkt_get_offset(k, &at); while (bi < bound.size() && bound[bi] < at) bi++;
          for (;;) {
              uint64_t off = 0; if (pt_pkt_get_offset(k, &off) < 0) sim.fail("decode-error", "packet layer: no offset"); pt_packet p; memset(&p, 0xaa, sizeof p); n.fired = false; u64 was = n.ncall;
              r = LIB(pt_pkt_next(k, &p, sizeof p)); sim.h((u64) r); bool unk = pi < n.pk.size() && n.pk[pi].off == off;
              if (n.ncall - was != (unk && !(n.patch && n.pk[pi].calls > 1))) { if (!(unk && n.patch)) sim.fail("callback", "decode callback called %llu times at %llx", X(n.ncall - was), X(off)); }
              if (n.fired) { int want = n.err ? n.err : n.over > 255 ? -pte_invalid : std::min<u64>(255, d.size() - off + 1 + (n.over & 7)) > d.size() - off ? -pte_eos : 0; if (want) { if (r != want) sim.fail("callback", "the callback's result becomes %s, expected %s", r < 0 ? errname(r) : "success", errname(want)); uint64_t o2 = 0; pt_pkt_get_offset(k, &o2); if (o2 != off) sim.fail("callback", "the decoder moved although the callback failed"); n.err = n.over = 0; continue; } n.err = n.over = 0; break; }
              if (r == -pte_eos) { if (off != d.size()) sim.fail("decode-error", "packet layer: end of trace at %llx of %zx", X(off), d.size()); break; }
              if (r < 0) sim.fail("decode-error", "packet layer: %s at %llx", errname(r), X(off));
              if (unk && !n.patch) { NewCpu::Pk &k2 = n.pk[pi]; if (p.type != ppt_unknown || p.size != k2.b.size() || r != (int) p.size || p.payload.unknown.packet != buf.data() + off || p.payload.unknown.priv != &k2) sim.fail("callback", "unknown packet at %llx: type %d size %u", X(off), p.type, p.size); pi++; continue; }
              if (unk) { if (p.type != ppt_unknown || p.size || r) sim.fail("callback", "unknown packet of size zero at %llx: type %d size %u", X(off), p.type, p.size); for (u64 z = 0; z < n.pk[pi].b.size(); z++) { r = LIB(pt_pkt_next(k, &p, sizeof p)); if (r != 1 || p.type != ppt_pad) sim.fail("callback", "the replaced packet at %llx is not decoded again", X(off)); } pi++; continue; }
              if (bi >= bound.size() || bound[bi] != off || p.type == ppt_unknown) sim.fail("decode-error", "packet layer: packet of type %d at %llx", p.type, X(off)); bi++;
          } } break;
      case 4: { // event layer, the callback fails at some point: everything up to there, then its error
          n.patch = false; std::vector<std::vector<u64>> ref;
          for (int pass = 0; pass < 2; pass++) {
              std::vector<u8> buf; pt_config cf = mkconfig(m, buf, o); u64 calls = n.ncall; n.ncall = 0; if (pass) { if (!calls) break; n.nth = 1 + sim.d((u32) calls); static const int er[] = { -pte_bad_config, -pte_bad_opc, -pte_nomem, -pte_bad_cpu, -pte_invalid, -1000 }; n.err = er[sim.d(6)]; }
              pt_event_decoder *e = LIB(pt_evt_alloc_decoder(&cf)); if (!e) sim.fail("decoder-setup", "pt_evt_alloc_decoder fails"); struct G { pt_event_decoder *d; ~G() { LIB(pt_evt_free_decoder(d)); } } g{e};
              int r = LIB(pt_evt_sync_forward(e)); size_t i = 0; bool sync = r >= 0; 
              while (r >= 0) { pt_event v; memset(&v, 0, sizeof v); r = LIB(pt_evt_next(e, &v, sizeof v)); if (r < 0) break; std::vector<u64> x; ev_canon(v, x, true); for (u64 z : x) sim.h(z); if (!pass) ref.push_back(x); else { if (i >= ref.size() || ref[i] != x) sim.fail("callback", "event layer: event %zu differs when the callback fails later on", i); i++; } }
              if (!pass && r != -pte_eos) sim.fail("decode-error", "event layer: %s", errname(r));
              if (pass && r != n.err) sim.fail("callback", "event layer: %s after %zu of %zu events%s, the callback failed with %d", errname(r), i, ref.size(), sync ? "" : " (sync)", n.err);
          } } break;
      case 1: o.tag = "event"; check_evt(m, o); break;
      case 2: o.tag = "query"; check_qry(m, o); break;
      case 3: c.make(); check_insn(m, c, o); break;
      default: c.make(); o.end_on_call = sim.p(1, 4); check_block(m, c, o); break; }
    }
}
SCENARIO("C29", c29, "packets the library does not know");
