#include <algorithm>
#include "decode.h"
#include <cstdlib>
#include <memory>
#include <cstddef>

const char *errname(int e) { static const char *n[] = {"ok","internal","invalid","nosync","bad_opc","bad_packet","bad_context","eos","bad_query","nomem","bad_config","noip","ip_suppressed","nomap","bad_insn","no_time","no_cbr","bad_image","bad_lock","not_supported","retstack_empty","bad_retcomp","bad_status_update","no_enable","event_ignored","overflow","bad_file","bad_cpu"}; int k = e < 0 ? -e : 0; return k < (int)(sizeof n / sizeof *n) ? n[k] : "?"; }
#define X(v) ((unsigned long long)(v))

pt_asid asid_of(const Machine &m, const Module &mod)
{
    pt_asid a; memset(&a, 0, sizeof a); a.size = sizeof a; a.cr3 = pt_asid_no_cr3; a.vmcs = pt_asid_no_vmcs;
    if (m.f.os && mod.proc >= 0) a.cr3 = m.prog.cr3[mod.proc];
    return a;
}
void Code::files()
{
    for (auto &mod : m.prog.mods) { std::vector<u8> d(mod.fileoff); for (auto &b : d) b = 0xf4; d.insert(d.end(), mod.code.begin(), mod.code.end()); for (u32 i = sim.d(40); i > 0; i--) d.push_back(0xf4); seam.put(mod.file, d); }
    std::vector<u8> junk(0x4000, 0xf4); seam.put("/sim/junk", junk);
}
void Code::add(pt_image *im, const Module &mod, u64 off, u64 size, bool cached, u64 vmcs)
{
    pt_asid as = asid_of(m, mod); int r, isid = 0; std::string fn = mod.file; if (vmcs) { as.vmcs = vmcs; fn += "." + std::to_string(vmcs); if (!seam.files.count(fn)) seam.put(fn, seam.files[mod.file]->data); }
    pt_asid *ap = &as; std::unique_ptr<u8[]> hold;
    if (o.asids) {      // the user's structure ends where the fields end that matter, or has more than the library knows
        size_t n = sim.d(3) == 0 ? sizeof as + sim.d(40) : as.vmcs != pt_asid_no_vmcs ? sizeof as : as.cr3 != pt_asid_no_cr3 ? offsetof(pt_asid, vmcs) : offsetof(pt_asid, cr3); as.size = n; hold.reset(new u8[n]); memset(hold.get(), 0x5a, n); memcpy(hold.get(), &as, std::min(n, sizeof as)); ap = (pt_asid *) hold.get(); if (n != sizeof as) sim.count("asid-sizes");
    }
    if (cached) {
        isid = LIB(pt_iscache_add_file(isc, fn.c_str(), mod.fileoff + off, size, mod.base + off)); if (isid <= 0) sim.fail("code-setup", "pt_iscache_add_file: %s", errname(isid));
        r = LIB(pt_image_add_cached(im, isc, isid, ap));
    } else r = LIB(pt_image_add_file(im, fn.c_str(), mod.fileoff + off, size, ap, mod.base + off));
    if (r < 0) sim.fail("code-setup", "adding code: %s", errname(r));
    if (im == img) pieces.push_back({mod.base + off, size, isid, mod.proc, false, vmcs});
}
u64 Code::cb_max(u64 ip) const { if (!cb_short) return ~0ull; u64 x = (ip ^ cb_short) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x % 3 ? 15 : (x >> 8) % 15; }
const Piece *Code::at(int proc, u64 ip) const { for (auto &p : pieces) if ((p.proc < 0 || p.proc == proc) && ip >= p.va && ip < p.va + p.size) return &p; return nullptr; }
u64 Code::readable(int proc, u64 ip) const { const Piece *p = at(proc, ip); if (!p) return 0; u64 n = p->va + p->size - ip; if (!p->cb) return n; if (cb_hi && ip >= cb_lo && ip < cb_hi) return 0; return std::min(n, cb_max(ip)); }
bool Code::available(int proc, u64 ip, u8 size) const { u64 n = 0; while (n < size) { u64 k = readable(proc, ip + n); if (!k) return false; n += k; } return true; }      // decode retries as long as it gets more
int Code::cb(uint8_t *buf, size_t size, const pt_asid *asid, uint64_t ip, void *ctx)
{
    Code *c = (Code *) ctx; int proc = 0; c->cbreads++; sim.count("callback-reads");
    if (!size || size > 15 || !buf || !asid) sim.fail("callback-call", "memory callback called for %zu bytes", size);
    if (c->m.f.os) { proc = -1; for (size_t p = 0; p < c->m.prog.cr3.size(); p++) if (c->m.prog.cr3[p] == asid->cr3) proc = (int) p; }
    if (c->cur && !c->cur->wild && !c->cur->tailed && c->cur->xi < c->cur->must() && c->m.f.os && proc != c->m.t.x[c->cur->xi].proc) sim.fail("callback-call", "memory callback called for %llx in address space %llx while process %d runs", X(ip), X(asid->cr3), c->m.t.x[c->cur->xi].proc);
    if (c->cb_track && c->cb_failed) sim.fail("callback-call", "memory callback called for %llx after it failed at %llx", X(ip), X(c->cb_ip));
    auto bad = [&](int e) { c->cb_failed = true; c->cb_ip = ip; c->cb_err = e; sim.count("fault.callback"); LOG("callback fails at %llx: -pte_%s", X(ip), errname(e)); return e; };
    const Piece *q = c->at(proc, ip);
    if (q && q->cb) {
        if (c->cb_hi && ip >= c->cb_lo && ip < c->cb_hi) return bad(c->cb_err);
        if (c->cb_nth && !--c->cb_nth) return bad(c->cb_err);
        const Module *mod = c->m.prog.mod(q->proc < 0 ? 0 : q->proc, ip); size_t n = std::min<size_t>(size, q->va + q->size - ip); u64 mx = c->cb_max(ip); if (mx < n) { n = mx; sim.count("fault.callback-short"); }
        memcpy(buf, mod->code.data() + (ip - mod->base), n); for (size_t k = n; k < size; k++) buf[k] = (uint8_t) sim.d(256); return (int) n; }      // what it did not read is not code
    if (q && c->strict_cb) sim.fail("callback-for-mapped", "memory callback called for %llx, which is in a section", X(ip));
    return c->cb_track ? bad(-pte_nomap) : -pte_nomap;
}
void Code::fill(pt_image *im)
{
    if (o.overlay && sim.p(1, 4)) { auto &mod = sim.pick(m.prog.mods); pt_asid a = asid_of(m, mod); int r = LIB(pt_image_add_file(im, "/sim/junk", sim.d(64), mod.code.size(), &a, mod.base)); if (r < 0) sim.fail("code-setup", "junk: %s", errname(r)); }
    bool anycb = false;
    for (auto &mod : m.prog.mods) {
        // A module under the overlaid junk must be complete on top of it, so the callback is only for others; simplest: the callback module is removed by name first.
        if (o.callback && sim.p(1, 8)) { LIB(pt_image_remove_by_filename(im, "/sim/junk", nullptr) >= 0 ? 0 : 0); pt_asid a = asid_of(m, mod); int r = LIB(pt_image_remove_by_filename(im, "/sim/junk", &a)); (void) r; mod.callback = true; anycb = true; if (im == img) pieces.push_back({mod.base, mod.code.size(), 0, mod.proc, true}); continue; }
        mod.callback = false;
        std::vector<u64> cuts = {0}; if (o.split && sim.p(1, 3)) for (u32 k = sim.range(1, 3); k > 0; k--) cuts.push_back(sim.d((u32) mod.code.size()));
        cuts.push_back(mod.code.size()); std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        bool cached = o.cached && sim.d(2), vm = o.vmcs && cached && sim.d(2) && !m.vmcs_bases.empty(); if (vm) sim.count("vmcs-sections");
        for (size_t k = 0; k + 1 < cuts.size(); k++) if (!vm) add(im, mod, cuts[k], cuts[k + 1] - cuts[k], cached); else for (u64 v : m.vmcs_bases) add(im, mod, cuts[k], cuts[k + 1] - cuts[k], cached, v);
    }
    if (anycb) { int r = LIB(pt_image_set_callback(im, cb, this)); if (r < 0) sim.fail("code-setup", "callback: %s", errname(r)); }
}
void Code::make()
{
    files();
    if (o.cached) { isc = LIB(pt_iscache_alloc("isc")); if (sim.p(1, 3)) (void) LIB(pt_iscache_set_limit(isc, sim.d(2) ? 0 : sim.d(3000))); }
    img = LIB(pt_image_alloc("img")); if (!img || (o.cached && !isc)) sim.fail("code-setup", "out of memory");
    fill(img);
}
Code::~Code() { if (img) { LIB(pt_image_free(img)); } if (isc) { LIB(pt_iscache_free(isc)); } }
int Code::isid_at(int proc, u64 ip, u64 vmcs) const { for (auto &p : pieces) if ((p.proc < 0 || p.proc == proc) && ip >= p.va && ip < p.va + p.size) { if (p.vmcs && !vmcs) return -1; if (!p.vmcs || p.vmcs == vmcs) return p.isid; } return 0; }
bool Code::truncated(int proc, u64 ip, u8 size) const { for (auto &p : pieces) if ((p.proc < 0 || p.proc == proc) && ip >= p.va && ip < p.va + p.size) return size > readable(proc, ip); return false; }

pt_config mkconfig(const Machine &m, std::vector<u8> &buf, const RunOpt &o)
{
    pt_config c; m.config(&c); if (o.nonom) c.nom_freq = 0; if (o.nocpuid) c.cpuid_0x15_eax = c.cpuid_0x15_ebx = 0; const std::vector<u8> &tr = o.data ? *o.data : m.t.trace; u64 end = std::min<u64>(o.end, tr.size());
    buf.assign(tr.begin() + o.begin, tr.begin() + end);     // exact-size heap buffer: the sanitizer guards both ends
    buf.shrink_to_fit();
    if (o.decode) { c.decode.callback = o.decode; c.decode.context = o.decode_ctx; }
    c.begin = buf.data(); c.end = buf.data() + buf.size(); return c;
}

FlowRun::FlowRun(Machine &m_, Code &c_, RunOpt o_) : m(m_), code(c_), o(o_) { if (!m.t.sync.empty()) { xi = start_xi = m.t.sync[o.sync].xi; evi = m.t.sync[o.sync].ev; } }

void FlowRun::on_event(const pt_event &e)
{
    sim.h(0xe0000000 + e.type); n_ev++;
    LOG("  %s event %s at insn %zu%s", o.tag, ev_str(e).c_str(), xi, e.has_tsc ? "" : " (no time)");
    if (e.type == ptev_tick) { if (!o.tick) sim.fail("event-mismatch", "tick event although not enabled"); if (!e.ip_suppressed && !wild && !tailed && !free_tail() && xi && xi < must()) tick_near(e.variant.tick.ip); if (o.tobs && !wild) o.tobs->on(e, evi, xi); return; }
    if (wild || free_tail()) return;
    if (o.cp && evi >= o.cp->ev) { if (o.cp_exact) sim.fail("event-mismatch", "event %s after all %zu events of the kept part", ev_str(e).c_str(), evi); loose = true; return; }
    if (evi >= m.t.ev.size()) sim.fail("event-mismatch", "extra event %s after all %zu events", ev_str(e).c_str(), m.t.ev.size());
    TEv &x = m.t.ev[evi];
    std::vector<u64> a, b; ev_canon(e, a, false); ev_canon(x.e, b, false);
    if (a != b) sim.fail("event-mismatch", "event #%zu after %zu instructions: got %s, recorded %s", evi, xi, ev_str(e).c_str(), ev_str(x.e).c_str());
    if (!tailed && (xi < x.lo || xi > x.hi)) sim.fail("event-place", "event #%zu %s reported after %zu instructions, recorded between %zu and %zu", evi, ev_str(e).c_str(), xi, x.lo, x.hi);
    if (e.type == ptev_enabled && !e.status_update && evi && m.t.ev[evi - 1].e.type == ptev_async_disabled && evi - 1 >= m.t.sync[o.sync].ev)
        if (e.variant.enabled.resumed != (m.t.ev[evi - 1].e.variant.async_disabled.at == e.variant.enabled.ip)) sim.fail("event-mismatch", "event #%zu: resumed=%d but tracing was left at %llx and re-enabled at %llx", evi, e.variant.enabled.resumed, X(m.t.ev[evi - 1].e.variant.async_disabled.at), X(e.variant.enabled.ip));
    resume(e);
    if (o.tobs) o.tobs->on(e, evi, xi);
    evi++;
}
// Tick events say near which instruction they happened: the last one, where it falls through to, or the next.
void FlowRun::tick_near(u64 ip)
{
    const XI &l = m.t.x[xi - 1]; sim.count("tick-places");
    bool cut = evi < m.t.ev.size() && m.t.ev[evi].lo <= xi;     // an event ahead of the next instruction: execution may have gone elsewhere
    if (ip != l.ip && ip != l.ip + l.size && ip != m.t.x[xi].ip && !(l.iclass == ptic_cond_jump && l.si && ip == l.si->target) && !(cut && (l.iclass == ptic_return || l.brk))) sim.fail("event-place", "tick event near %llx between instructions %llx and %llx", X(ip), X(l.ip), X(m.t.x[xi].ip));
}
// Where tracing is expected to resume once an instruction turned it off: behind calls and MOV CR3; unknown for all other branches that need trace.
void FlowRun::resume(const pt_event &e)
{
    if (e.status_update || tailed || !xi) { if (tailed) res_known = false; return; }
    switch (e.type) {
    case ptev_disabled: { const XI &l = m.t.x[xi - 1]; Kind k = l.si ? l.si->k : K_NOP; res_known = true;
        if (l.iclass == ptic_far_call || k == K_CALLI) res_ip = l.ip + l.size; else if (l.iclass == ptic_cond_jump || l.iclass == ptic_return || l.iclass == ptic_far_return || l.iclass == ptic_far_jump || k == K_JMPI) res_ip = 0; else res_known = false; } break;
    case ptev_enabled: if (res_known) { sim.count(e.variant.enabled.resumed ? "resumed" : "not-resumed"); if (e.variant.enabled.resumed != (res_ip && res_ip == e.variant.enabled.ip)) sim.fail("event-mismatch", "event #%zu: resumed=%d but tracing was left behind %llx and re-enabled at %llx", evi, e.variant.enabled.resumed, X(res_ip), X(e.variant.enabled.ip)); } res_known = false; break;
    case ptev_overflow: case ptev_async_disabled: case ptev_stop: res_known = false; break;
    default: break; }
}
static bool ind(const SInsn *i) { return i->k == K_JMPI || i->k == K_JMPABS || i->iclass == ptic_far_call || i->iclass == ptic_far_return || i->iclass == ptic_far_jump; }
// The address space the decoder says it is in, ahead of the next instruction.
void FlowRun::asid_is(const pt_asid &a)
{
    if (wild || tailed || free_tail() || xi >= must() || xi >= m.t.x.size()) return;
    XI &t = m.t.x[xi]; u64 cr3 = m.f.os ? m.prog.cr3[t.proc] : (u64) pt_asid_no_cr3, vm = t.vmcs ? t.vmcs : (u64) pt_asid_no_vmcs;
    if (a.cr3 != cr3) sim.fail("asid-mismatch", "cr3 %llx reported ahead of instruction %zu, executed with %llx", X(a.cr3), xi, X(cr3));
    if (a.vmcs != vm) sim.fail("asid-mismatch", "vmcs %llx reported ahead of instruction %zu, executed with %llx", X(a.vmcs), xi, X(vm));
}
// One instruction (or part of a block).  Negative size, iclass, isid or trunc: not reported, not checked.
bool FlowRun::one_insn(u64 ip, int size, const u8 *raw, int mode, int iclass, int isid, bool spec, int trunc, bool opt)
{
    if (isid < 0) sim.fail("insn-mismatch", "instruction at %llx: section %d", X(ip), isid);
    sim.h(ip); n_insn++;
    LOG("  %s insn %zu %016llx size %d mode %d class %d%s%s", o.tag, xi, X(ip), size, mode, iclass, spec ? " spec" : "", opt ? " (at error)" : "");
    if (wild || free_tail()) return true;
    if (xi >= must() && !tailed) {
        bool real = o.cp && !o.cp_exact && xi < o.cp_xmax && m.t.x[xi].ip == ip;      // the incomplete last sequence still told us
        if (o.cp && xi == o.cp->anchor) { exp_ip = o.cp->on ? o.cp->next_ip : 0; exp_proc = o.cp->proc; }
        if (!real && o.cp && !o.cp_exact && xi > o.cp->anchor && !exp_ip) { loose = true; return true; }      // part of the incomplete sequence decided where to go
        if (real && xi > o.cp->anchor && m.t.x[xi].proc != m.t.x[xi - 1].proc) { loose = true; return true; }        // switched address spaces; we may not have been told
        if (!real) { tailed = true; if (!o.cp && xi < m.t.x.size()) { exp_ip = m.t.x[xi].ip; exp_proc = m.t.x[xi].proc; } }
    }
    if (tailed) {      // beyond the recorded end: only what follows without any branch decision
        const SInsn *i = exp_ip ? m.prog.find(exp_proc, exp_ip) : nullptr;
        if (!i || i->ip != ip) sim.fail("insn-extra", "instruction at %llx reported beyond the end of the trace, next is %llx", X(ip), X(exp_ip));
        if (size >= 0 && (size != i->size || memcmp(raw, i->raw, size))) sim.fail("insn-mismatch", "wrong bytes in the tail at %llx", X(ip));
        if (iclass >= 0 && iclass != i->iclass && !(iclass == ptic_indirect && ind(i))) sim.fail("insn-mismatch", "wrong class in the tail at %llx", X(ip));
        follow(i); xi++;
        return true;
    }
    if (xi >= m.t.x.size()) sim.fail("insn-extra", "extra instruction at %llx after all %zu", X(ip), m.t.x.size());
    if (evi < (o.cp ? std::min(o.cp->ev, m.t.ev.size()) : m.t.ev.size()) && m.t.ev[evi].hi < xi + 1) sim.fail("event-missing", "instruction %zu reported before event #%zu %s due after %zu instructions", xi, evi, ev_str(m.t.ev[evi].e).c_str(), m.t.ev[evi].hi);
    XI &t = m.t.x[xi];
    if (code.cb_failed && code.cb_ip >= ip && code.cb_ip < ip + t.size) sim.fail("unreadable-code", "instruction %zu at %llx reported although reading %llx failed", xi, X(ip), X(code.cb_ip));
    if (code.cb_short && !code.available(t.proc, ip, t.size)) sim.fail("unreadable-code", "instruction %zu at %llx reported although only %llu of its bytes could be read", xi, X(ip), X(code.readable(t.proc, ip)));
    if (code.gone >= 0 && t.si->mod == code.gone) sim.fail("removed-code", "instruction %zu at %llx reported although its code was removed", xi, X(ip));
    if (t.ip != ip) sim.fail("insn-mismatch", "instruction %zu: got %llx, executed %llx", xi, X(ip), X(t.ip));
    if (mode != t.mode) sim.fail("insn-mismatch", "instruction %zu at %llx: got mode %d, executed in mode %d", xi, X(ip), mode, t.mode);
    if (size >= 0 && size != t.size) sim.fail("insn-mismatch", "instruction %zu at %llx: got size %d, executed size %d", xi, X(ip), size, t.size);
    if (size >= 0 && memcmp(raw, t.raw, size)) sim.fail("insn-mismatch", "instruction %zu at %llx: got bytes %s, executed %s", xi, X(ip), hexs(raw, size).c_str(), hexs(t.raw, t.size).c_str());
    if (iclass >= 0 && iclass != t.iclass && !(iclass == ptic_indirect && ind(t.si))) sim.fail("insn-mismatch", "instruction %zu at %llx (%s): got class %d, is class %d", xi, X(ip), hexs(t.raw, t.size).c_str(), iclass, t.iclass);
    if (spec != t.spec && xi < must()) sim.fail("insn-mismatch", "instruction %zu at %llx: speculative=%d, executed with %d", xi, X(ip), spec, t.spec);
    if (int want = code.isid_at(t.proc, ip, t.vmcs); want >= 0 && isid != want) sim.fail("insn-mismatch", "instruction %zu at %llx: section %d, comes from section %d", xi, X(ip), isid, want);
    if (sim.verbose && trunc >= 0 && (bool) trunc != code.truncated(t.proc, ip, t.size)) for (auto &p : code.pieces) LOG("  piece %llx..%llx isid %d proc %d cb %d; insn size %d", X(p.va), X(p.va + p.size), p.isid, p.proc, p.cb, t.size);
    if (trunc >= 0 && (bool) trunc != code.truncated(t.proc, ip, t.size)) sim.fail("insn-mismatch", "instruction %zu at %llx: truncated=%d, crosses section end=%d", xi, X(ip), trunc, code.truncated(t.proc, ip, t.size));
    exp_proc = t.proc; follow(t.si); xi++; return true;
}
void FlowRun::finish(int e)
{
    err = e; done = true; sim.h(0xdd00 - e);
    LOG("  %s ends: %s after %zu instructions, %zu events", o.tag, errname(e), xi, evi);
    if (code.mem && seam.fired != code.mem_mark && e != -pte_eos) { sim.count("oom-reported"); return; }
    if (wild || free_tail()) return;
    size_t nev = o.cp ? std::min(o.cp->ev, m.t.ev.size()) : m.t.ev.size();
    if (sim.verbose) for (size_t k = evi; k < m.t.ev.size() && k < evi + 3; k++) LOG("  next recorded event #%zu %s between %zu and %zu", k, ev_str(m.t.ev[k].e).c_str(), m.t.ev[k].lo, m.t.ev[k].hi);
    if (code.cb_failed || (code.cb_short && (e == -pte_bad_insn || e == -pte_nomap || e == -pte_internal))) {     // the callback did not give the code
        bool known = xi < m.t.x.size() && !tailed; u64 ip = known ? m.t.x[xi].ip : exp_ip; int proc = known ? m.t.x[xi].proc : exp_proc; u64 sz = known ? m.t.x[xi].size : 15;
        if (code.cb_failed) {
            if (ip && (code.cb_ip < ip || code.cb_ip >= ip + sz)) { if (xi < must()) sim.fail("unreadable-code", "decode ends at %llx after reading %llx failed", X(ip), X(code.cb_ip)); }
            else if (e == code.cb_err || (code.cb_ip != ip && e == -pte_bad_insn)) { sim.count("unreadable-code-reported"); return; }
            else if (xi < must()) sim.fail("unreadable-code", "decode ends with -pte_%s after the callback failed with -pte_%s at %llx", errname(e), errname(code.cb_err), X(code.cb_ip));
        } else if (known ? !code.available(proc, ip, (u8) sz) : true) { sim.count("unreadable-code-reported"); return; }
    }
    if (e == -pte_nomap && code.gone >= 0) {       // code was removed: reported at the first instruction affected
        Module &g = m.prog.mods[code.gone]; auto in = [&](u64 ip, int proc) { return ip >= g.base && ip < g.base + g.code.size() && (g.proc < 0 || g.proc == proc); };
        if (xi < m.t.x.size() ? in(m.t.x[xi].ip, m.t.x[xi].proc) : !exp_ip || in(exp_ip, exp_proc)) { sim.count("missing-code-reported"); return; }
    }
    if (e == -pte_nomap && o.cp && xi >= must() && evi >= nev && exp_ip && !m.prog.find(exp_proc, exp_ip)) return;      // the tail runs into memory of another process
    if (e != -pte_eos && !(o.cp && !o.cp_exact && xi >= must() && evi >= nev)) sim.fail("decode-error", "decode fails with -pte_%s after %zu of %zu instructions and %zu of %zu events", errname(e), xi, must(), evi, nev);
    if (xi < must()) sim.fail("insn-missing", "end of trace after %zu of %zu instructions", xi, must());
    if (evi < nev) sim.fail("event-missing", "end of trace after %zu of %zu events; next is %s", evi, nev, ev_str(m.t.ev[evi].e).c_str());
}
void FlowRun::follow(const SInsn *i)
{
    bool traced = (i->iclass != ptic_other && i->iclass != ptic_ptwrite) && !(i->k == K_JMP || i->k == K_CALL || i->k == K_CALL0);
    exp_ip = traced ? 0 : (i->k == K_JMP || i->k == K_CALL) ? i->target : i->ip + i->size;
}
int find_sync(const Machine &m, u64 off) { for (size_t k = 0; k < m.t.sync.size(); k++) if (m.t.sync[k].off == off) return (int) k; return -1; }
void FlowRun::resync(int k, int st) { o.sync = k; xi = start_xi = m.t.sync[k].xi; evi = m.t.sync[k].ev; status = st; tailed = done = wild = loose = false; exp_ip = 0; res_known = last_async_dis = false; }

InsnRun::InsnRun(Machine &m_, Code &c_, RunOpt o_, pt_image *img) : FlowRun(m_, c_, o_)
{
    pt_config c = mkconfig(m, buf, o); c.flags.variant.insn.enable_tick_events = o.tick; c.flags.variant.insn.keep_tcal_on_ovf = o.keep_tcal; c.flags.variant.insn.enable_iflags_events = m.f.iflags_ev;
    d = LIB(pt_insn_alloc_decoder(&c)); if (!d) sim.fail("decoder-setup", "pt_insn_alloc_decoder fails");
    int r = LIB(pt_insn_set_image(d, img ? img : code.img)); if (r < 0) sim.fail("decoder-setup", "pt_insn_set_image: %s", errname(r));
}
InsnRun::~InsnRun() { LIB(pt_insn_free_decoder(d)); }
void InsnRun::start()
{
    started = true;
    if (o.sync && o.begin == 0) status = LIB(pt_insn_sync_set(d, m.t.sync[o.sync].off)); else status = LIB(pt_insn_sync_forward(d));
    if (status < 0) { finish(status); return; }
}
bool InsnRun::step()
{
    if (done) return false;
    if (!started) { start(); return !done; }
    if (free_tail() && ++n_free > 4000) { sim.count("free-tail-bounded"); finish(-pte_eos); return false; }      // beyond what the trace determines
    if (status & pts_event_pending) {
        pt_event e; memset(&e, 0xaa, sizeof e); int r = LIB(pt_insn_event(d, &e, sizeof e)); if (r < 0) { finish(r); return false; }
        status = r; on_event(e); return true;
    }
    if (sim.verbose) { uint64_t off = 0; pt_insn_get_offset(d, &off); LOG("  %s at offset %llx", o.tag, X(off)); }
    { pt_asid a; memset(&a, 0, sizeof a); a.size = sizeof a; if (LIB(pt_insn_asid(d, &a, sizeof a)) < 0) sim.fail("asid-mismatch", "pt_insn_asid fails"); asid_is(a); }
    pt_insn in; memset(&in, 0xaa, sizeof in); int r = LIB(pt_insn_next(d, &in, sizeof in));
    if (r < 0) {
        if (r == -pte_eos && in.iclass != ptic_unknown && in.size && in.size <= 15) one_insn(in.ip, in.size, in.raw, in.mode, in.iclass, in.isid, in.speculative, in.truncated, true);
        finish(r); return false;
    }
    one_insn(in.ip, in.size, in.raw, in.mode, in.iclass, in.isid, in.speculative, in.truncated, false);
    status = r; return true;
}
BlockRun::BlockRun(Machine &m_, Code &c_, RunOpt o_, pt_image *img) : FlowRun(m_, c_, o_)
{
    pt_config c = mkconfig(m, buf, o); c.flags.variant.block.enable_tick_events = o.tick; c.flags.variant.block.keep_tcal_on_ovf = o.keep_tcal; c.flags.variant.block.enable_iflags_events = m.f.iflags_ev; c.flags.variant.block.end_on_call = o.end_on_call; c.flags.variant.block.end_on_jump = o.end_on_jump;
    d = LIB(pt_blk_alloc_decoder(&c)); if (!d) sim.fail("decoder-setup", "pt_blk_alloc_decoder fails");
    int r = LIB(pt_blk_set_image(d, img ? img : code.img)); if (r < 0) sim.fail("decoder-setup", "pt_blk_set_image: %s", errname(r));
}
BlockRun::~BlockRun() { LIB(pt_blk_free_decoder(d)); }
void BlockRun::start()
{
    started = true;
    if (o.sync && o.begin == 0) status = LIB(pt_blk_sync_set(d, m.t.sync[o.sync].off)); else status = LIB(pt_blk_sync_forward(d));
    if (status < 0) finish(status);
}
bool BlockRun::step()
{
    if (done) return false;
    if (!started) { start(); return !done; }
    if (free_tail() && ++n_free > 4000) { sim.count("free-tail-bounded"); finish(-pte_eos); return false; }      // beyond what the trace determines
    if (status & pts_event_pending) {
        pt_event e; memset(&e, 0xaa, sizeof e); int r = LIB(pt_blk_event(d, &e, sizeof e)); if (r < 0) { finish(r); return false; }
        status = r; on_event(e); return true;
    }
    if (sim.verbose) { uint64_t off = 0; pt_blk_get_offset(d, &off); LOG("  %s at offset %llx", o.tag, X(off)); }
    pt_asid a; memset(&a, 0, sizeof a); a.size = sizeof a; if (LIB(pt_blk_asid(d, &a, sizeof a)) < 0) sim.fail("asid-mismatch", "pt_blk_asid fails");
    pt_block b; memset(&b, 0xaa, sizeof b); int r = LIB(pt_blk_next(d, &b, sizeof b)); if (b.ninsn) asid_is(a);
    if (r >= 0 || b.ninsn) {
        LOG("  %s block %llx..%llx ninsn %u class %d%s", o.tag, X(b.ip), X(b.end_ip), b.ninsn, b.iclass, b.truncated ? " truncated" : "");
        sim.count("blocks");
        u64 ip = b.ip; int proc = 0; if (wild || free_tail()) { status = r; if (r < 0) { finish(r); return false; } return true; }
        for (u32 k = 0; k < b.ninsn && !free_tail(); k++) {
            bool last = k + 1 == b.ninsn; const SInsn *i = nullptr;
            if (!tailed && xi < must()) { proc = m.t.x[xi].proc; if (!k && m.t.x[xi].ip != b.ip) sim.fail("insn-mismatch", "block starts at %llx, executed %llx (instruction %zu)", X(b.ip), X(m.t.x[xi].ip), xi); ip = m.t.x[xi].ip; i = m.t.x[xi].si; }
            else { if (!tailed && o.cp && xi > o.cp->anchor && xi < m.t.x.size() && m.t.x[xi].proc != m.t.x[xi - 1].proc) { loose = true; break; }      // switched address spaces; we may not have been told
                if (!tailed && !k) ip = b.ip;
                if (!tailed && o.cp && xi == o.cp->anchor) proc = o.cp->proc; else if (!tailed && xi < m.t.x.size() && m.t.x[xi].ip == ip) proc = m.t.x[xi].proc; else if (tailed || exp_ip || !o.cp) proc = exp_proc; else proc = o.cp->proc;
                i = m.prog.find(proc, ip); if (!i) sim.fail("insn-extra", "block continues to %llx, where there is no instruction", X(ip)); }
            if (last && b.end_ip != ip) sim.fail("block-mismatch", "block of %u instructions ends at %llx, instruction %u is at %llx", b.ninsn, X(b.end_ip), b.ninsn, X(ip));
            bool traced = (i->iclass != ptic_other && i->iclass != ptic_ptwrite) && !(i->k == K_JMP || i->k == K_CALL || i->k == K_CALL0);
            if (!last && traced) sim.fail("block-mismatch", "block %llx continues past the branch at %llx", X(b.ip), X(ip));
            if (!last && o.end_on_call && i->iclass == ptic_call) sim.fail("block-mismatch", "block %llx continues past the call at %llx", X(b.ip), X(ip));
            if (!last && o.end_on_jump && i->iclass == ptic_jump) sim.fail("block-mismatch", "block %llx continues past the jump at %llx", X(b.ip), X(ip));
            if (last && b.truncated && (b.size != i->size || memcmp(b.raw, i->raw, i->size))) sim.fail("block-mismatch", "block %llx: wrong bytes for the last instruction at %llx", X(b.ip), X(ip));
            if (!last && code.truncated(proc, ip, i->size)) sim.fail("block-mismatch", "block %llx continues past the section end at %llx", X(b.ip), X(ip));
            // With an error the block says how far execution got; a cached position there does not mean the instruction could be read.
            if (r < 0 && last && !b.truncated && ((code.cb_failed && code.cb_ip >= ip && code.cb_ip < ip + i->size) || (code.cb_short && !code.available(proc, ip, i->size)) || (code.mem && seam.fired != code.mem_mark && code.truncated(proc, ip, i->size)))) { sim.count("cached-position-at-error"); break; }
            one_insn(ip, -1, nullptr, b.mode, last && b.iclass != ptic_unknown ? (int) b.iclass : -1, b.isid, b.speculative, last ? (int) b.truncated : -1, r < 0 && last);
            ip = (i->k == K_JMP || i->k == K_CALL) ? i->target : i->ip + i->size;
        }
        if (!b.ninsn && b.iclass != ptic_unknown) sim.fail("block-mismatch", "empty block with an instruction class");
    }
    if (r < 0) { finish(r); return false; }
    status = r; return true;
}
void check_insn(Machine &m, Code &c, RunOpt o) { o.tag = "insn"; InsnRun r(m, c, o); while (r.step()) ; }
void check_block(Machine &m, Code &c, RunOpt o) { o.tag = "block"; BlockRun r(m, c, o); while (r.step()) ; }

static void cmp_ev(Machine &m, size_t i, const pt_event &e, const char *layer)
{
    sim.h(0xe1000000 + e.type); LOG("  %s event %s", layer, ev_str(e).c_str());
    if (i >= m.t.ev.size()) sim.fail("event-mismatch", "%s: extra event %s", layer, ev_str(e).c_str());
    std::vector<u64> a, b; ev_canon(e, a, false); ev_canon(m.t.ev[i].e, b, false);
    if (e.type == ptev_trig) { a.pop_back(); b.pop_back(); a[1] = b[1]; if (e.variant.trig.icnt != m.t.ev[i].e.variant.trig.icnt) sim.fail("event-mismatch", "%s: trigger count %u, recorded %u", layer, e.variant.trig.icnt, m.t.ev[i].e.variant.trig.icnt); }
    if (a != b) sim.fail("event-mismatch", "%s: event #%zu: got %s, recorded %s", layer, i, ev_str(e).c_str(), ev_str(m.t.ev[i].e).c_str());
}
void check_evt(Machine &m, RunOpt o)
{
    std::vector<u8> buf; pt_config c = mkconfig(m, buf, o); c.flags.variant.event.enable_iflags_events = m.f.iflags_ev;
    pt_event_decoder *d = LIB(pt_evt_alloc_decoder(&c)); if (!d) sim.fail("decoder-setup", "pt_evt_alloc_decoder fails");
    struct G { pt_event_decoder *d; ~G() { LIB(pt_evt_free_decoder(d)); } } g{d};
    int r = o.sync && !o.begin ? LIB(pt_evt_sync_set(d, m.t.sync[o.sync].off)) : LIB(pt_evt_sync_forward(d)); if (r < 0) sim.fail("decode-error", "event layer: sync: %s", errname(r));
    run_evt(m, o, d);
}
void run_evt(Machine &m, RunOpt o, pt_event_decoder *d)
{
    int r; size_t li = m.t.sync[o.sync].layer, n = o.cp ? o.cp->layer : m.t.layer.size(); bool inexact = o.cp && !o.cp_exact;
    for (;;) {
        pt_event e; memset(&e, 0xaa, sizeof e); r = LIB(pt_evt_next(d, &e, sizeof e));
        if (r < 0) { if (r != -pte_eos && !(inexact && li >= n)) sim.fail("decode-error", "event layer: -pte_%s after %zu of %zu items", errname(r), li, n); break; }
        if (li >= n && inexact) continue;
        if (e.type == ptev_tnt) {
            if (!e.variant.tnt.size || e.variant.tnt.size > 47) sim.fail("layer-mismatch", "event layer: %u branch outcomes in one packet", e.variant.tnt.size);
            for (int k = e.variant.tnt.size - 1; k >= 0; k--) { bool b = e.variant.tnt.bits >> k & 1; sim.h(b); if (li >= n || m.t.layer[li].kind != 0) sim.fail("layer-mismatch", "event layer: conditional branch outcome where item %zu is something else", li); if (m.t.layer[li].bit != b) sim.fail("layer-mismatch", "event layer: wrong branch outcome, item %zu", li); li++; }
        } else if (e.type == ptev_tip) {
            sim.h(e.variant.tip.ip); if (li >= n || m.t.layer[li].kind != 1) sim.fail("layer-mismatch", "event layer: branch target %llx where item %zu is something else", X(e.variant.tip.ip), li);
            if (e.ip_suppressed || e.variant.tip.ip != m.t.layer[li].v) sim.fail("layer-mismatch", "event layer: target %llx, recorded %llx, item %zu", X(e.variant.tip.ip), X(m.t.layer[li].v), li); li++;
        } else { if (li >= n || m.t.layer[li].kind != 2) sim.fail("layer-mismatch", "event layer: event %s where item %zu is a branch", ev_str(e).c_str(), li); cmp_ev(m, m.t.layer[li].v, e, "event layer"); li++; }
    }
    if (li < n) sim.fail("layer-mismatch", "event layer: end after %zu of %zu items", li, n);
}
void check_qry(Machine &m, RunOpt o)
{
    std::vector<u8> buf; pt_config c = mkconfig(m, buf, o); c.flags.variant.query.enable_iflags_events = m.f.iflags_ev;
    pt_query_decoder *d = LIB(pt_qry_alloc_decoder(&c)); if (!d) sim.fail("decoder-setup", "pt_qry_alloc_decoder fails");
    struct G { pt_query_decoder *d; ~G() { LIB(pt_qry_free_decoder(d)); } } g{d};
    u64 ip = 0; int st = o.sync && !o.begin ? LIB(pt_qry_sync_set(d, &ip, m.t.sync[o.sync].off)) : LIB(pt_qry_sync_forward(d, &ip)); if (st < 0) sim.fail("decode-error", "query layer: sync: %s", errname(st));
    run_qry(m, o, d, st, ip);
}
void run_qry(Machine &m, RunOpt o, pt_query_decoder *d, int st, u64 ip)
{
    SyncPt &s = m.t.sync[o.sync]; size_t li = s.layer, n = o.cp ? o.cp->layer : m.t.layer.size();
    if (s.enabled ? (st & pts_ip_suppressed) || ip != s.ip : !(st & pts_ip_suppressed)) sim.fail("layer-mismatch", "query layer: sync status %x ip %llx, recorded %s %llx", st, X(ip), s.enabled ? "enabled" : "disabled", X(s.ip));
    auto at = [&](size_t i) { return i < n ? m.t.layer[i].kind : 9; };
    for (;;) {
        bool pend = st & pts_event_pending;
        if (pend != (at(li) == 2)) sim.fail("layer-mismatch", "query layer: event %sindicated before item %zu, which is %s", pend ? "" : "not ", li, at(li) == 2 ? "an event" : at(li) == 9 ? "the end" : "a branch");
        if (!pend && ((st & pts_eos) != 0) != (li >= n)) sim.fail("layer-mismatch", "query layer: end of trace %sindicated before item %zu of %zu", st & pts_eos ? "" : "not ", li, n);
        if (!pend && sim.p(1, 12)) {    // a query of the wrong kind is refused and changes nothing
            int t = 7; pt_event e;
            switch (at(li)) { case 0: { int r = LIB(pt_qry_event(d, &e, sizeof e)); if (r >= 0) sim.fail("layer-mismatch", "query layer: event query answered at item %zu", li); } break;
            case 1: { int r = LIB(pt_qry_cond_branch(d, &t)); if (r >= 0) sim.fail("layer-mismatch", "query layer: conditional branch query answered at indirect item %zu", li); } break; default: break; }
        }
        if (li >= n) { int t; int r = LIB(pt_qry_cond_branch(d, &t)); if (r >= 0) sim.fail("layer-mismatch", "query layer: branch beyond the end"); break; }
        LItem &l = m.t.layer[li];
        if (l.kind == 2) { pt_event e; memset(&e, 0xaa, sizeof e); st = LIB(pt_qry_event(d, &e, sizeof e)); if (st < 0) sim.fail("decode-error", "query layer: event: -pte_%s at item %zu", errname(st), li); cmp_ev(m, l.v, e, "query layer"); }
        else if (l.kind == 0) { int t = 7; st = LIB(pt_qry_cond_branch(d, &t)); if (st < 0) sim.fail("decode-error", "query layer: conditional branch: -pte_%s at item %zu", errname(st), li); if (t != l.bit) sim.fail("layer-mismatch", "query layer: branch outcome %d, recorded %d, item %zu", t, l.bit, li); sim.h(t); }
        else { u64 tip = 7; st = LIB(pt_qry_indirect_branch(d, &tip)); if (st < 0) sim.fail("decode-error", "query layer: indirect branch: -pte_%s at item %zu", errname(st), li); if ((st & pts_ip_suppressed) || tip != l.v) sim.fail("layer-mismatch", "query layer: target %llx, recorded %llx, item %zu", X(tip), X(l.v), li); sim.h(tip); }
        li++;
    }
}
