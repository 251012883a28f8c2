// C16, C17: the image changes between decoder calls; code comes from the memory callback.
#include "live.h"
#include <algorithm>
#define X(v) ((unsigned long long)(v))

Live::~Live() { if (c.img && c.img == deflt) c.img = nullptr; for (auto i : spare) LIB(pt_image_free(i)); }

// Other instructions that do nothing: any length, other bytes.
static SInsn filler(const SInsn &like, u64 ip, int size)
{
    static const u8 pre[] = {0x66, 0x2e, 0x3e, 0x36, 0x26, 0x64, 0x65};
    SInsn i; i.ip = ip; i.mode = like.mode; i.mod = like.mod; i.k = K_NOP; i.iclass = ptic_other; i.size = (u8) size;
    int form = (int) sim.d(3);
    if (form == 1 && size >= 2) { for (int k = 0; k < size - 2; k++) i.raw[k] = pre[sim.d(7)]; i.raw[size - 2] = 0x04; i.raw[size - 1] = (u8) sim.d(256); }       // add al, imm8
    else if (form == 2) { for (int k = 0; k < size - 1; k++) i.raw[k] = pre[sim.d(7)]; i.raw[size - 1] = (u8)(0x50 + sim.d(16)); }                          // push, pop
    else { for (int k = 0; k < size - 1; k++) i.raw[k] = pre[sim.d(7)]; i.raw[size - 1] = 0x90; }
    return i;
}
bool Live::mutate(int mi, size_t cur, u64 exp_ip, u64 *lo, u64 *hi)
{
    Module &mod = m.prog.mods[mi]; auto &x = m.t.x; std::set<u64> pin; if (exp_ip) pin.insert(exp_ip);
    for (auto &om : m.prog.mods) for (auto &i : om.insns) if (i.target) pin.insert(i.target);
    std::vector<u8> evb(x.size() + 1);
    for (auto &e : m.t.ev) for (size_t b = e.lo; b <= e.hi && b <= x.size(); b++) evb[b] = 1;
    for (auto &s : m.t.sync) if (s.xi <= x.size()) evb[s.xi] = 1;
    evb[cur] = evb[x.size()] = 1; if (x.size()) evb[x.size() - 1] = 1; if (x.size() > 1) evb[x.size() - 2] = 1; if (m.t.anchor <= x.size()) evb[m.t.anchor] = 1;
    for (size_t k = cur; k <= x.size(); k++) {
        bool lin = k > cur && k < x.size() && !evb[k] && !x[k - 1].brk && x[k].ip == x[k - 1].ip + x[k - 1].size && x[k].proc == x[k - 1].proc && x[k].spec == x[k - 1].spec && x[k].mode == x[k - 1].mode && x[k].traced == x[k - 1].traced;
        if (lin) continue;
        if (k > 0) pin.insert(x[k - 1].ip + x[k - 1].size);
        if (k < x.size()) pin.insert(x[k].ip);
    }
    std::vector<SInsn> ni; std::map<u64, std::pair<size_t, std::vector<size_t>>> seg; *lo = ~0ull; *hi = 0; u32 rate = sim.range(1, 6); u64 from = 0, to = ~0ull;
    if (mod.insns.size() > 2 && sim.d(2)) { from = mod.insns[sim.d((u32) mod.insns.size())].ip; to = from + sim.d(64); }
    for (size_t j = 0; j < mod.insns.size(); ) {
        const SInsn &a = mod.insns[j];
        if (a.k != K_NOP) {
            SInsn i = a; if (i.k == K_JCC && sim.p(1, rate) && i.ip >= from && i.ip < to) { int at = i.raw[0] == 0x0f ? 1 : -1; if (at < 0 && (i.raw[0] & 0xf0) == 0x70) at = 0; if (at >= 0 && ((i.raw[at] & 0xf0) == 0x70 || (i.raw[at] & 0xf0) == 0x80)) { i.raw[at] ^= 1; *lo = std::min(*lo, i.ip); *hi = std::max(*hi, i.ip + i.size); seg[i.ip] = {1, {ni.size()}}; } }
            ni.push_back(i); j++; continue; }
        size_t e = j + 1; while (e < mod.insns.size() && mod.insns[e].k == K_NOP && !pin.count(mod.insns[e].ip)) e++;
        u64 end = mod.insns[e - 1].ip + mod.insns[e - 1].size;
        if (a.ip >= from && end <= to && sim.p(1, rate)) {
            std::vector<size_t> idx; for (u64 ip = a.ip; ip < end; ) { int n = (int) std::min<u64>(end - ip, 1 + sim.d(sim.d(2) ? 15 : 4)); idx.push_back(ni.size()); ni.push_back(filler(a, ip, n)); ip += (u64) n; }
            seg[a.ip] = {e - j, idx}; *lo = std::min(*lo, a.ip); *hi = std::max(*hi, end);
        } else for (size_t k = j; k < e; k++) ni.push_back(mod.insns[k]);
        j = e;
    }
    if (seg.empty()) return false;
    old.push_back(std::move(mod.insns)); mod.insns = std::move(ni); mod.at.clear(); mod.code.clear();
    for (size_t j = 0; j < mod.insns.size(); j++) { auto &i = mod.insns[j]; mod.at[i.ip] = (int) j; mod.code.insert(mod.code.end(), i.raw, i.raw + i.size); }
    // what is still to be decoded
    std::vector<XI> nx(x.begin(), x.begin() + cur); std::vector<size_t> at(x.size() + 1); for (size_t k = 0; k <= cur; k++) at[k] = k;
    for (size_t k = cur; k < x.size(); ) {
        at[k] = nx.size(); auto s = x[k].si->mod == mi ? seg.find(x[k].ip) : seg.end();
        if (s == seg.end()) { nx.push_back(x[k++]); continue; }
        size_t n = s->second.first; for (size_t i = 0; i < n; i++) at[std::min(k + i, x.size())] = nx.size();
        for (size_t i : s->second.second) { XI y = x[k]; const SInsn &q = mod.insns[i]; y.ip = q.ip; y.size = q.size; memcpy(y.raw, q.raw, 15); y.iclass = (u8) q.iclass; y.si = &q; y.brk = n == 1 ? x[k].brk : false; nx.push_back(y); }
        if (k + n > x.size()) { fprintf(stderr, "simulator bug: live segment beyond the end\n"); abort(); }
        k += n;
    }
    at[x.size()] = nx.size(); x = std::move(nx);
    for (auto &e : m.t.ev) { e.lo = at[std::min(e.lo, at.size() - 1)]; e.hi = e.hi < at.size() ? at[e.hi] : e.hi; }
    for (auto &s : m.t.sync) s.xi = at[std::min(s.xi, at.size() - 1)];
    for (auto &s : m.t.cuts) { s.xi = at[std::min(s.xi, at.size() - 1)]; s.anchor = at[std::min(s.anchor, at.size() - 1)]; }
    m.t.anchor = at[std::min(m.t.anchor, at.size() - 1)];
    sim.count("code-changes"); return true;
}
void Live::carve(u64 va, u64 size, int proc)
{
    std::vector<Piece> n;
    for (auto &p : c.pieces) {
        if ((p.proc >= 0 && proc >= 0 && p.proc != proc) || p.va >= va + size || va >= p.va + p.size) { n.push_back(p); continue; }
        if (p.va < va) { Piece q = p; q.size = va - p.va; n.push_back(q); }
        if (p.va + p.size > va + size) { Piece q = p; q.size = p.va + p.size - (va + size); q.va = va + size; n.push_back(q); }
    }
    c.pieces = n;
}
void Live::newfile(int mi)
{
    Module &mod = m.prog.mods[mi]; mod.file = "/sim/live" + std::to_string(++ver); mod.fileoff = sim.d(3) ? sim.d(0x1100) : 0; used[mi].push_back(mod.file);
    std::vector<u8> d(mod.fileoff, 0xf4); d.insert(d.end(), mod.code.begin(), mod.code.end()); seam.put(mod.file, d);
}
void Live::remove_all(int mi)
{
    Module &mod = m.prog.mods[mi]; pt_asid a = asid_of(m, mod);
    for (auto &f : used[mi]) { int r = LIB(pt_image_remove_by_filename(c.img, f.c_str(), &a)); if (r < 0) sim.fail("live-setup", "pt_image_remove_by_filename: %s", errname(r)); }
    carve(mod.base, mod.code.size(), mod.proc);
}
void Live::add_split(int mi)
{
    Module &mod = m.prog.mods[mi]; std::vector<u64> cuts = {0, mod.code.size()}; if (sim.p(1, 3)) for (u32 k = sim.range(1, 3); k > 0; k--) cuts.push_back(sim.d((u32) mod.code.size()));
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); bool cached = sim.d(2);
    carve(mod.base, mod.code.size(), mod.proc); for (size_t k = 0; k + 1 < cuts.size(); k++) c.add(c.img, mod, cuts[k], cuts[k + 1] - cuts[k], cached);
}
void Live::op(size_t cur, u64 exp_ip, bool running)
{
    int mi = (int) sim.d((u32) m.prog.mods.size()); if (cur < m.t.x.size() && sim.d(2)) mi = m.t.x[cur].si->mod;
    Module &mod = m.prog.mods[mi]; u64 lo, hi; nops++;
    switch (sim.weighted({6, 3, running ? 3u : 0u, 2, running && c.gone < 0 ? 1u : 0u, 1, 1})) {
    case 0: // overlay the changed part
        if (c.gone == mi || !mutate(mi, cur, exp_ip, &lo, &hi)) return;
        newfile(mi); lo -= std::min<u64>(lo - mod.base, sim.d(3) ? 0 : sim.d(40)); hi += std::min<u64>(mod.base + mod.code.size() - hi, sim.d(3) ? 0 : sim.d(40));
        LOG("live: overlay %llx..%llx from %s", X(lo), X(hi), mod.file.c_str()); carve(lo, hi - lo, mod.proc); c.add(c.img, mod, lo - mod.base, hi - lo, sim.d(2)); sim.count("live.overlay"); break;
    case 1: // replace the module
        if (mutate(mi, cur, exp_ip, &lo, &hi)) newfile(mi);
        LOG("live: replace %llx from %s", X(mod.base), mod.file.c_str()); remove_all(mi); add_split(mi); if (c.gone == mi) c.gone = -1; sim.count("live.replace"); break;
    case 2: { // another image
        for (size_t k = 0; k < m.prog.mods.size(); k++) if (mutate((int) k, cur, exp_ip, &lo, &hi)) newfile((int) k);
        bool d = !deflt && sim.p(1, 3); pt_image *ni = d ? nullptr : LIB(pt_image_alloc("live")); pt_image *oi = c.img; c.pieces.clear(); c.gone = -1;
        if (set_image(ni) < 0) sim.fail("live-setup", "set_image fails"); if (d) { ni = get_image(); deflt = ni; } c.img = ni; LOG("live: %s image", d ? "default" : "new"); c.fill(ni);
        if (oi != deflt) { if (sim.d(2)) { LIB(pt_image_free(oi)); } else spare.push_back(oi); } sim.count("live.set-image"); } break;
    case 3: // the callback takes over
        if (c.gone == mi) return;
        LIB(pt_image_remove_by_filename(c.img, "/sim/junk", nullptr)); { pt_asid a = asid_of(m, mod); LIB(pt_image_remove_by_filename(c.img, "/sim/junk", &a)); }
        if (mutate(mi, cur, exp_ip, &lo, &hi)) newfile(mi); remove_all(mi); c.pieces.push_back({mod.base, mod.code.size(), 0, mod.proc, true}); LOG("live: callback for %llx", X(mod.base));
        { int r = LIB(pt_image_set_callback(c.img, Code::cb, &c)); if (r < 0) sim.fail("live-setup", "pt_image_set_callback: %s", errname(r)); } sim.count("live.callback"); break;
    case 4: // code goes away
        LIB(pt_image_remove_by_filename(c.img, "/sim/junk", nullptr)); { pt_asid a = asid_of(m, mod); LIB(pt_image_remove_by_filename(c.img, "/sim/junk", &a)); }
        remove_all(mi); c.gone = mi; LOG("live: remove %llx", X(mod.base)); sim.count("live.remove"); break;
    case 5: // other code at the same place of another address space
        if (mod.proc < 0 || !m.f.os) return;
        { pt_asid a = asid_of(m, mod); a.cr3 ^= 0x5555000; int r = LIB(pt_image_add_file(c.img, "/sim/junk", sim.d(64), mod.code.size(), &a, mod.base)); if (r < 0) sim.fail("live-setup", "decoy: %s", errname(r)); LOG("live: decoy at %llx", X(mod.base)); sim.count("live.decoy"); } break;
    default: if (c.isc) { int r = LIB(pt_iscache_set_limit(c.isc, sim.d(2) ? 0 : sim.d(3000))); if (r < 0) sim.fail("live-setup", "pt_iscache_set_limit: %s", errname(r)); sim.count("live.limit"); } break;
    }
    sim.h(0x11fe + cur);
}

static void c16()
{
    seam.reset();
    { Machine m; m.gen_feat(); m.f.trig = false; m.f.nsteps = std::max<u32>(m.f.nsteps, 40); if (sim.p(1, 5)) m.f.os = m.f.vmx = true; bool still = m.f.vmx && sim.d(2); m.gen_program(); m.run(); Code c(m); c.o.vmcs = still; c.make(); Live l(m, c);
      for (u32 n = sim.d(3); n > 0; n--) { RunOpt o; o.end_on_call = sim.p(1, 3); check_block(m, c, o); for (u32 k = still ? 0 : sim.d(3); k > 0; k--) l.op(0, 0, false); }
      { bool blk = sim.d(2); RunOpt o; o.tag = blk ? "block" : "insn"; o.end_on_call = sim.p(1, 3); o.end_on_jump = sim.p(1, 3); std::unique_ptr<FlowRun> r(blk ? (FlowRun *) new BlockRun(m, c, o) : new InsnRun(m, c, o)); auto ir = [&]() { return (InsnRun *) r.get(); }; auto br = [&]() { return (BlockRun *) r.get(); };
        l.set_image = [&](pt_image *i) { return blk ? LIB(pt_blk_set_image(br()->d, i)) : LIB(pt_insn_set_image(ir()->d, i)); };
        l.get_image = [&]() { return blk ? LIB(pt_blk_get_image(br()->d)) : LIB(pt_insn_get_image(ir()->d)); };
        u32 rate = sim.range(2, 60); l.nops = 0;
        while (r->step()) if (!still && !r->tailed && r->xi < r->must() && sim.p(1, rate)) l.op(r->xi, r->exp_ip, true);
        sim.nontrivial = (still || l.nops > 0) && m.t.x.size() > 3; }
    }
    seam.check_released("end of run");
}
SCENARIO("C16", c16, "image changes under a running decoder");

static void c17()
{
    seam.reset();
    { Machine m; m.build(); Code c(m); Code::Opt o; o.callback = o.overlay = false; c.make(o);
      std::vector<int> cbm; for (size_t k = 0; k < m.prog.mods.size(); k++) if (sim.p(2, 3)) cbm.push_back((int) k);
      for (int k : cbm) { Module &mod = m.prog.mods[k]; pt_asid a = asid_of(m, mod); LIB(pt_image_remove_by_filename(c.img, mod.file.c_str(), &a)); std::vector<Piece> np; for (auto &p : c.pieces) if (p.va < mod.base || p.va >= mod.base + mod.code.size() || p.proc != mod.proc) np.push_back(p); c.pieces = np;
          u64 from = 0, to = mod.code.size(); if (sim.p(1, 4)) from = sim.d((u32) to); if (sim.p(1, 4)) to = from + 1 + sim.d((u32)(to - from));          // part of it in a section
          if (from) c.add(c.img, mod, 0, from, sim.d(2)); if (to < mod.code.size()) c.add(c.img, mod, to, mod.code.size() - to, sim.d(2)); c.pieces.push_back({mod.base + from, to - from, 0, mod.proc, true}); LOG("callback for %llx..%llx", X(mod.base + from), X(mod.base + to)); }
      int r = LIB(pt_image_set_callback(c.img, Code::cb, &c)); if (r < 0) sim.fail("code-setup", "pt_image_set_callback: %s", errname(r));
      static const int errs[] = {-pte_nomap, -pte_bad_image, -pte_internal, -pte_nomem, -pte_bad_file, -pte_eos, -pte_bad_insn};
      for (u32 n = sim.range(1, 3); n > 0; n--) {
          c.cb_lo = c.cb_hi = c.cb_nth = c.cb_short = 0; c.cb_failed = false; c.cb_track = true; c.cb_err = sim.d(2) ? -pte_nomap : errs[sim.d(7)];
          switch (sim.d(4)) { case 0: break; case 1: c.cb_nth = 1 + sim.d(sim.d(2) ? 20 : 400); break; case 2: if (!cbm.empty()) { Module &mod = m.prog.mods[sim.pick(cbm)]; c.cb_lo = mod.base + sim.d((u32) mod.code.size()); c.cb_hi = c.cb_lo + 1 + sim.d(64); } break; case 3: c.cb_short = 1 + (sim.d64() >> 8); break; }
          RunOpt ro; bool blk = sim.d(2); ro.tag = blk ? "block" : "insn"; ro.end_on_call = sim.p(1, 4); ro.end_on_jump = sim.p(1, 4);
          std::unique_ptr<FlowRun> f(blk ? (FlowRun *) new BlockRun(m, c, ro) : new InsnRun(m, c, ro)); c.cur = f.get(); while (f->step()) {} c.cur = nullptr;
      }
      sim.nontrivial = c.cbreads > 3; }
    seam.check_released("end of run");
}
SCENARIO("C17", c17, "code comes from the memory callback");
