// C30: callers built against other versions of the header; their structures are shorter or longer than the library's.
#include "decode.h"
#include <memory>
#include <cstddef>
#include <algorithm>
static unsigned long long X(u64 v) { return v; }

bool same_packet(const pt_packet &a, const pt_packet &b);
static bool differ(const pt_packet &a, const pt_packet &b) { return a.size != b.size || !same_packet(a, b); }
static bool differ(const pt_event &a, const pt_event &b) { std::vector<u64> x, y; ev_canon(a, x, true); ev_canon(b, y, true); return x != y; }
static bool differ(const pt_asid &a, const pt_asid &b) { return a.size != b.size || a.cr3 != b.cr3 || a.vmcs != b.vmcs; }
static bool differ(const pt_insn &a, const pt_insn &b) { return a.ip != b.ip || a.isid != b.isid || a.mode != b.mode || a.iclass != b.iclass || a.size != b.size || memcmp(a.raw, b.raw, std::min<size_t>(a.size, sizeof a.raw)) || a.speculative != b.speculative || a.truncated != b.truncated; }
static bool differ(const pt_block &a, const pt_block &b) { return a.ip != b.ip || a.end_ip != b.end_ip || a.isid != b.isid || a.mode != b.mode || a.iclass != b.iclass || a.ninsn != b.ninsn || a.speculative != b.speculative || a.truncated != b.truncated || (a.truncated && (a.size != b.size || memcmp(a.raw, b.raw, a.size))); }

// A structure of the caller: exactly as big as it says, so that the sanitizer guards both ends.
template <class T> struct User {
    size_t n; std::unique_ptr<u8[]> p; User(size_t n_) : n(n_), p(new u8[n_ ? n_ : 1]) { memset(p.get(), 0xaa, n ? n : 1); } T *get() { return (T *) p.get(); }
    // what does not fit is taken from the full structure; what fits must say the same
    T whole(const T &ref) { T t; memcpy(&t, &ref, sizeof t); memcpy(&t, p.get(), std::min(n, sizeof t)); return t; }
    void same(const T &ref, const char *what, bool zero, u64 at)
    {
        if (differ(ref, whole(ref))) sim.fail("size-mismatch", "%s of %zu bytes, call %llu: not what it is with the full structure", what, n, X(at));
        for (size_t i = sizeof(T); i < n; i++) if (zero ? p[i] : p[i] && p[i] != 0xaa) sim.fail("size-mismatch", "%s of %zu bytes, call %llu: byte %zu behind what the library knows is %02x", what, n, X(at), i, p[i]);
    }
};
template <class T> static size_t some_size(size_t lo) { size_t n; switch (sim.d(4)) { case 0: n = sizeof(T); break; case 1: n = sizeof(T) + 1 + sim.d(64); break; default: n = lo + sim.d((u32)(sizeof(T) - lo + 1)); } if (n < sizeof(T)) sim.count("sizes.smaller"); else if (n > sizeof(T)) sim.count("sizes.bigger"); return n; }

struct Pair {      // what two callers of one layer see, one with the library's structures, one with its own
    Machine &m; u64 calls = 0; bool tcheck; std::vector<u8> buf, buf2; pt_config ca; std::unique_ptr<u8[]> cb; size_t cn = 0;
    Pair(Machine &m_, const RunOpt &o) : m(m_)
    {
        ca = mkconfig(m, buf, o); ca.size = sizeof ca; buf2 = buf; buf2.shrink_to_fit(); tcheck = sim.d(2);
    }
    pt_config *user_config()      // once the flags are set
    {
        size_t n = some_size<pt_config>(offsetof(pt_config, decode)); if (sim.d(3)) n = std::max(n, sizeof(pt_config)); cn = n; cb.reset(new u8[n]); memset(cb.get(), 0x5a, n); pt_config b = ca; b.size = n; b.begin = buf2.data(); b.end = buf2.data() + buf2.size(); memcpy(cb.get(), &b, std::min(n, sizeof b));
        if (n < sizeof ca) { memset((u8 *) &ca + n, 0, sizeof ca - n); sim.count("config-smaller"); }      // what the caller does not know is zero
        return (pt_config *) cb.get();
    }
    void status(int a, int b, const char *what) { calls++; sim.h((u64)(s64) a); if (a != b) sim.fail("size-mismatch", "%s, call %llu: %s%d with the caller's sizes, %s%d with the library's", what, X(calls), errname(b), b, errname(a), a); }
};
template <class D> struct Ops;
#define OPS(D, pre, flag) template <> struct Ops<D> { static D *alloc(pt_config *c) { return LIB(pre##_alloc_decoder(c)); } static void free(D *d) { LIB(pre##_free_decoder(d)); } static int off(D *d, uint64_t *o) { return LIB(pre##_get_offset(d, o)); } };
OPS(pt_packet_decoder, pt_pkt, 0) OPS(pt_event_decoder, pt_evt, 0) OPS(pt_query_decoder, pt_qry, 0) OPS(pt_insn_decoder, pt_insn, 0) OPS(pt_block_decoder, pt_blk, 0)
template <class D> struct Two {
    D *a = nullptr, *b = nullptr; Two(Pair &p) { pt_config *u = p.user_config(); a = Ops<D>::alloc(&p.ca); b = Ops<D>::alloc(u); if (!a || !b) sim.fail("decoder-setup", "no decoder: %s with the library's configuration, %s with the user's of %zu bytes", a ? "one" : "none", b ? "one" : "none", p.cn); memset(p.cb.get(), 0xee, p.cn); }      // the configuration is only read when allocating
    ~Two() { if (a) Ops<D>::free(a); if (b) Ops<D>::free(b); }
    void offs(Pair &p) { uint64_t x = 7, y = 7; int r = Ops<D>::off(a, &x), q = Ops<D>::off(b, &y); if (r != q || x != y) sim.fail("size-mismatch", "call %llu: offset %llx (%s) with the caller's sizes, %llx (%s) with the library's", X(p.calls), X(y), errname(q), X(x), errname(r)); }
};
// Events of the three layers that say when one is pending: a structure without room for the event's header is refused and nothing is lost.
template <class D, class F> static int events(Pair &p, Two<D> &t, F f, const char *what)
{
    if (sim.p(1, 6)) { User<pt_event> s(sim.d(offsetof(pt_event, variant))); int r = f(t.b, s.get(), s.n); if (r != -pte_invalid) sim.fail("size-mismatch", "%s with a structure of %zu bytes, call %llu: %s%d", what, s.n, X(p.calls), errname(r), r); for (size_t i = 0; i < s.n; i++) if (s.p[i] != 0xaa) sim.fail("size-mismatch", "%s with a structure of %zu bytes is refused and writes to it", what, s.n); sim.count("sizes.refused"); }
    pt_event e; memset(&e, 0xaa, sizeof e); int r = f(t.a, &e, sizeof e); User<pt_event> u(some_size<pt_event>(offsetof(pt_event, variant))); int q = f(t.b, u.get(), u.n); p.status(r, q, what); if (r >= 0) { u.same(e, what, false, p.calls); sim.h(e.type); } return r;
}
template <class D, class F> static void asids(Pair &p, Two<D> &t, F f)
{
    pt_asid a; memset(&a, 0xaa, sizeof a); int r = f(t.a, &a, sizeof a); size_t n = sim.p(1, 6) ? sim.d(8) : some_size<pt_asid>(8); User<pt_asid> u(n); int q = f(t.b, u.get(), n);
    if (n < 8) { if (q != -pte_invalid) sim.fail("size-mismatch", "address space in %zu bytes: %s%d", n, errname(q), q); return; }
    p.status(r, q, "address space"); if (r < 0) return; size_t s; memcpy(&s, u.p.get(), sizeof s); if (s != std::min(n, sizeof a)) sim.fail("size-mismatch", "address space in %zu bytes says it has %zu", n, s); memcpy(u.p.get(), &a.size, sizeof s); u.same(a, "address space", false, p.calls);
}
template <class D, class F> static void times(Pair &p, Two<D> &t, F f) { if (!p.tcheck || !sim.p(1, 4)) return; uint64_t x = 1, y = 1; uint32_t a = 1, b = 1, c = 1, d = 1; int r = f(t.a, &x, &a, &b), q = f(t.b, &y, &c, &d); p.status(r, q, "time"); if (x != y || a != c || b != d) sim.fail("size-mismatch", "time %llx (lost %u %u) with the caller's sizes, %llx (lost %u %u) with the library's", X(y), c, d, X(x), a, b); }

static void c30()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.gen_program(); m.run(); Code c(m); RunOpt o; std::vector<u8> d = m.t.trace; Code::Opt co; co.vmcs = true; co.asids = sim.d(2); if (d.empty()) return;
      int layer = (int) sim.d(6); sim.nontrivial = true;
      if (layer == 5) { co.asids = true; c.make(co); if (sim.d(2)) check_insn(m, c, o); else check_block(m, c, o); return; }     // address spaces of any size, compared with what was executed
      if (sim.p(1, 3)) { for (u32 k = 1 + sim.d(3); k > 0; k--) { size_t i = sim.d((u32) d.size()); d[i] = (u8) sim.d(256); } sim.count("fault.damage"); o.data = &d; c.strict_cb = false; }
      Pair p(m, o); p.ca.flags.variant.event.enable_iflags_events = 0; u64 max = 6000, syncs = 0;
      switch (layer) {
      case 0: { Two<pt_packet_decoder> t(p);
          for (int st = -1; p.calls < max; ) { if (st < 0) { int r = LIB(pt_pkt_sync_forward(t.a)), q = LIB(pt_pkt_sync_forward(t.b)); p.status(r, q, "sync"); if (r < 0 || ++syncs > 200) break; }
              pt_packet k; memset(&k, 0xaa, sizeof k); st = LIB(pt_pkt_next(t.a, &k, sizeof k)); User<pt_packet> u(some_size<pt_packet>(1)); int q = LIB(pt_pkt_next(t.b, u.get(), u.n)); p.status(st, q, "packet"); if (st >= 0) { u.same(k, "packet", true, p.calls); } t.offs(p); } } break;
      case 1: { Two<pt_event_decoder> t(p);
          for (int st = -1; p.calls < max; ) { if (st < 0) { int r = LIB(pt_evt_sync_forward(t.a)), q = LIB(pt_evt_sync_forward(t.b)); p.status(r, q, "sync"); if (++syncs > 200 || r == -pte_eos) break; if (r < 0) continue; }
              pt_event e; memset(&e, 0xaa, sizeof e); st = LIB(pt_evt_next(t.a, &e, sizeof e)); User<pt_event> u(some_size<pt_event>(1)); int q = LIB(pt_evt_next(t.b, u.get(), u.n)); p.status(st, q, "event"); if (st >= 0) u.same(e, "event", true, p.calls); t.offs(p); } } break;
      case 2: { Two<pt_query_decoder> t(p); auto ev = [](pt_query_decoder *q, pt_event *e, size_t n) { return LIB(pt_qry_event(q, e, n)); };
          for (int st = -1; p.calls < max; ) { if (st < 0) { uint64_t x = 7, y = 7; int r = LIB(pt_qry_sync_forward(t.a, &x)), q = LIB(pt_qry_sync_forward(t.b, &y)); p.status(r, q, "sync"); if (++syncs > 200 || r == -pte_eos) break; if (r < 0) continue; if (x != y) sim.fail("size-mismatch", "sync at %llx and %llx", X(x), X(y)); st = r; }
              if (st & pts_event_pending) st = events(p, t, ev, "query event");
              else { int x = 7, y = 7; st = LIB(pt_qry_cond_branch(t.a, &x)); int q = LIB(pt_qry_cond_branch(t.b, &y)); p.status(st, q, "conditional branch"); if (x != y) sim.fail("size-mismatch", "branch outcomes %d and %d", y, x);
                  if (st == -pte_bad_query) { uint64_t i = 7, j = 7; st = LIB(pt_qry_indirect_branch(t.a, &i)); q = LIB(pt_qry_indirect_branch(t.b, &j)); p.status(st, q, "indirect branch"); if (i != j) sim.fail("size-mismatch", "branch targets %llx and %llx", X(j), X(i)); } }
              times(p, t, [](pt_query_decoder *q, uint64_t *a, uint32_t *b, uint32_t *c) { return LIB(pt_qry_time(q, a, b, c)); }); t.offs(p); } } break;
      case 3: { c.make(co); p.ca.flags.variant.insn.enable_tick_events = sim.p(1, 4); Two<pt_insn_decoder> t(p); auto ev = [](pt_insn_decoder *q, pt_event *e, size_t n) { return LIB(pt_insn_event(q, e, n)); }; if (LIB(pt_insn_set_image(t.a, c.img)) < 0 || LIB(pt_insn_set_image(t.b, c.img)) < 0) sim.fail("decoder-setup", "pt_insn_set_image fails");
          for (int st = -1; p.calls < max; ) { if (st < 0) { int r = LIB(pt_insn_sync_forward(t.a)), q = LIB(pt_insn_sync_forward(t.b)); p.status(r, q, "sync"); if (++syncs > 200 || r == -pte_eos) break; if (r < 0) continue; st = r; }
              if (sim.p(1, 8)) asids(p, t, [](pt_insn_decoder *q, pt_asid *a, size_t n) { return LIB(pt_insn_asid(q, a, n)); });
              if (st & pts_event_pending) st = events(p, t, ev, "instruction flow event");
              else { pt_insn i; memset(&i, 0xaa, sizeof i); st = LIB(pt_insn_next(t.a, &i, sizeof i)); User<pt_insn> u(some_size<pt_insn>(1)); int q = LIB(pt_insn_next(t.b, u.get(), u.n)); p.status(st, q, "instruction"); bool none = st < 0 && st != -pte_nomap && st != -pte_bad_insn;      // where the code is missing or not understood is said in what is filled
                     for (size_t k = 0; k < u.n; k++) if (u.p[k] != 0xaa) none = false; if (!none) u.same(i, "instruction", true, p.calls); }
              times(p, t, [](pt_insn_decoder *q, uint64_t *a, uint32_t *b, uint32_t *c) { return LIB(pt_insn_time(q, a, b, c)); }); t.offs(p); } } break;
      default: { co.split = co.cached = co.overlay = co.callback = co.vmcs = false; c.make(co); Code c2(m); c2.o = co; c2.img = LIB(pt_image_alloc("img")); if (!c2.img) sim.fail("code-setup", "out of memory"); c2.fill(c2.img);      // sections of their own: where blocks end may depend on what was decoded before
          p.ca.flags.variant.block.enable_tick_events = sim.p(1, 4); p.ca.flags.variant.block.end_on_call = sim.p(1, 4); Two<pt_block_decoder> t(p); auto ev = [](pt_block_decoder *q, pt_event *e, size_t n) { return LIB(pt_blk_event(q, e, n)); }; if (LIB(pt_blk_set_image(t.a, c.img)) < 0 || LIB(pt_blk_set_image(t.b, c2.img)) < 0) sim.fail("decoder-setup", "pt_blk_set_image fails");
          for (int st = -1; p.calls < max; ) { if (st < 0) { int r = LIB(pt_blk_sync_forward(t.a)), q = LIB(pt_blk_sync_forward(t.b)); p.status(r, q, "sync"); if (++syncs > 200 || r == -pte_eos) break; if (r < 0) continue; st = r; }
              if (sim.p(1, 8)) asids(p, t, [](pt_block_decoder *q, pt_asid *a, size_t n) { return LIB(pt_blk_asid(q, a, n)); });
              if (st & pts_event_pending) st = events(p, t, ev, "block event");
              else { pt_block i; memset(&i, 0xaa, sizeof i); st = LIB(pt_blk_next(t.a, &i, sizeof i)); User<pt_block> u(some_size<pt_block>(1)); int q = LIB(pt_blk_next(t.b, u.get(), u.n)); p.status(st, q, "block"); u.same(i, "block", true, p.calls); }
              times(p, t, [](pt_block_decoder *q, uint64_t *a, uint32_t *b, uint32_t *c) { return LIB(pt_blk_time(q, a, b, c)); }); t.offs(p); } } break;
      } }
}
SCENARIO("C30", c30, "structures of other sizes");
