#include "machine.h"
#include <algorithm>
#include <cstdlib>

static const char *evn[] = { "enabled", "disabled", "async_disabled", "async_branch", "paging", "async_paging", "overflow", "exec_mode", "tsx", "stop", "vmcs", "async_vmcs", "exstop", "mwait", "pwre", "pwrx", "ptwrite", "tick", "cbr", "mnt", "tip", "tnt", "iflags", "interrupt", "iret", "smi", "rsm", "sipi", "init", "vmentry", "vmexit", "shutdown", "uintr", "uiret", "trig" };
const char *ev_name(int t) { return t >= 0 && t < (int)(sizeof evn / sizeof *evn) ? evn[t] : "?"; }

// What of an event is meaningful, as a comparable vector.
void ev_canon(const pt_event &e, std::vector<u64> &v, bool time)
{
    v.clear(); v.push_back(e.type); v.push_back(e.status_update); bool s = e.ip_suppressed; bool ips = true; u64 ip = 0;
    auto &r = e.variant;
    switch (e.type) {
    case ptev_enabled: ip = r.enabled.ip; break;
    case ptev_disabled: ip = r.disabled.ip; break;
    case ptev_async_disabled: v.push_back(r.async_disabled.at); ip = r.async_disabled.ip; break;
    case ptev_async_branch: v.push_back(r.async_branch.from); ip = r.async_branch.to; break;
    case ptev_paging: ips = false; v.push_back(r.paging.cr3); v.push_back(r.paging.non_root); break;
    case ptev_async_paging: v.push_back(r.async_paging.cr3); v.push_back(r.async_paging.non_root); ip = r.async_paging.ip; break;
    case ptev_overflow: ip = r.overflow.ip; break;
    case ptev_exec_mode: v.push_back(r.exec_mode.mode); ip = r.exec_mode.ip; break;
    case ptev_tsx: v.push_back(r.tsx.speculative); v.push_back(r.tsx.aborted); ip = r.tsx.ip; break;
    case ptev_stop: ips = false; break;
    case ptev_vmcs: ips = false; v.push_back(r.vmcs.base); break;
    case ptev_async_vmcs: v.push_back(r.async_vmcs.base); ip = r.async_vmcs.ip; break;
    case ptev_exstop: ip = r.exstop.ip; break;
    case ptev_mwait: v.push_back(r.mwait.hints); v.push_back(r.mwait.ext); ip = r.mwait.ip; break;
    case ptev_pwre: ips = false; v.push_back(r.pwre.state); v.push_back(r.pwre.sub_state); v.push_back(r.pwre.hw); break;
    case ptev_pwrx: ips = false; v.push_back(r.pwrx.last); v.push_back(r.pwrx.deepest); v.push_back(r.pwrx.interrupt); v.push_back(r.pwrx.store); v.push_back(r.pwrx.autonomous); break;
    case ptev_ptwrite: v.push_back(r.ptwrite.size); v.push_back(r.ptwrite.payload); ip = r.ptwrite.ip; break;
    case ptev_tick: ip = r.tick.ip; break;
    case ptev_cbr: ips = false; v.push_back(r.cbr.ratio); break;
    case ptev_mnt: ips = false; v[1] = 0; v.push_back(r.mnt.payload); break;
    case ptev_tip: ip = r.tip.ip; break;
    case ptev_tnt: ips = false; v.push_back(r.tnt.bits); v.push_back(r.tnt.size); break;
    case ptev_iflags: v.push_back(r.iflags.iflag); ip = r.iflags.ip; break;
    case ptev_interrupt: v.push_back(r.interrupt.vector); v.push_back(r.interrupt.has_cr2); v.push_back(r.interrupt.has_cr2 ? r.interrupt.cr2 : 0); ip = r.interrupt.ip; break;
    case ptev_iret: ip = r.iret.ip; break;
    case ptev_smi: ip = r.smi.ip; break;
    case ptev_rsm: break;
    case ptev_sipi: v.push_back(r.sipi.vector); break;
    case ptev_init: ip = r.init.ip; break;
    case ptev_vmentry: ip = r.vmentry.ip; break;
    case ptev_vmexit: v.push_back(r.vmexit.has_vector); v.push_back(r.vmexit.has_vector ? r.vmexit.vector : 0); v.push_back(r.vmexit.has_vmxr); v.push_back(r.vmexit.has_vmxr ? r.vmexit.vmxr : 0); v.push_back(r.vmexit.has_vmxq); v.push_back(r.vmexit.has_vmxq ? r.vmexit.vmxq : 0); ip = r.vmexit.ip; break;
    case ptev_shutdown: ip = r.shutdown.ip; break;
    case ptev_uintr: v.push_back(r.uintr.vector); ip = r.uintr.ip; break;
    case ptev_uiret: ip = r.uiret.ip; break;
    case ptev_trig: v.push_back(r.trig.trbv); v.push_back(r.trig.mult); ip = r.trig.ip; break;
    }
    if (ips) { v.push_back(s); v.push_back(s ? 0 : ip); }
    if (time) { v.push_back(e.has_tsc); v.push_back(e.tsc); v.push_back(e.lost_mtc); v.push_back(e.lost_cyc); }
}
std::string ev_str(const pt_event &e)
{
    std::vector<u64> v; ev_canon(e, v, false); std::string s = ev_name(e.type); if (e.status_update) s += "(status)";
    char b[40]; for (size_t i = 2; i < v.size(); i++) { snprintf(b, 40, " %llx", (unsigned long long) v[i]); s += b; } return s;
}

// ---------------------------------------------------------------- program
static int iclass_of(Kind k)
{
    switch (k) {
    case K_JCC: return ptic_cond_jump; case K_JMP: case K_JMPI: case K_JMPABS: return ptic_jump;
    case K_CALL: case K_CALL0: case K_CALLI: return ptic_call; case K_RET: return ptic_return;
    case K_SYSCALL: case K_INT: case K_FARCALL: case K_VMCALL: return ptic_far_call;
    case K_SYSRET: case K_IRET: case K_FARRET: case K_VMENTER: case K_UIRET: return ptic_far_return;
    case K_FARJMP: return ptic_far_jump; case K_PTWRITE: return ptic_ptwrite; default: return ptic_other; }
}
static bool needs_trace(Kind k) { return k == K_JCC || k == K_JMPI || k == K_CALLI || k == K_RET || k == K_JMPABS || k == K_SYSCALL || k == K_SYSRET || k == K_INT || k == K_IRET || k == K_FARCALL || k == K_FARJMP || k == K_FARRET || k == K_VMCALL || k == K_VMENTER || k == K_UIRET; }

static void put(SInsn &i, std::initializer_list<int> b) { for (int x : b) i.raw[i.size++] = (u8) x; }
static void putrnd(SInsn &i, int n) { for (int k = 0; k < n; k++) i.raw[i.size++] = (u8) sim.d(256); }

static void enc_fixed(SInsn &i)     // everything that does not depend on layout
{
    i.size = 0; bool m64 = i.mode == ptem_64bit, m16 = i.mode == ptem_16bit;
    switch (i.k) {
    case K_NOP:
        switch (sim.d(m16 ? 7 : 12)) {
        case 0: put(i, {0x90}); break;
        case 1: put(i, {0xb8 + (int) sim.d(8)}); putrnd(i, m16 ? 2 : 4); break;
        case 2: put(i, {0x50 + (int) sim.d(16)}); break;
        case 3: put(i, {0x04}); putrnd(i, 1); break;
        case 4: put(i, {0x66, 0x90}); break;
        case 5: put(i, {0x89, 0xc0 + (int) sim.d(64)}); break;
        case 6: put(i, {0x0f, 0xa2}); break;                            // cpuid
        case 7: put(i, {0x8b, 0x44, 0x24}); putrnd(i, 1); break;          // mov eax,[esp+d8]
        case 8: put(i, {0x81, 0xc0 + (int) sim.d(8)}); putrnd(i, 4); break;
        case 9: if (m64) { put(i, {0x48, 0xb8}); putrnd(i, 8); } else put(i, {0x40}); break;
        case 10: put(i, {0x0f, 0x1f, 0x84, 0x00}); putrnd(i, 4); break;
        case 11: put(i, {0xc7, 0x84, 0x24}); putrnd(i, 8); break;         // mov [esp+d32], imm32: 11 bytes
        } break;
    case K_JMPI: put(i, {0xff, 0xe0 + (int) sim.d(8)}); break;
    case K_CALLI: put(i, {0xff, 0xd0 + (int) sim.d(8)}); break;
    case K_RET: if (sim.p(1, 3)) { put(i, {0xc2}); putrnd(i, 2); } else put(i, {0xc3}); break;
    case K_SYSCALL: put(i, {0x0f, 0x05}); break;
    case K_SYSRET: if (m64) put(i, {0x48}); put(i, {0x0f, (int)(sim.p(1, 3) ? 0x35 : 0x07)}); break;
    case K_INT: if (sim.p(1, 3)) put(i, {0xcc}); else { put(i, {0xcd}); putrnd(i, 1); } break;
    case K_IRET: if (m64 && sim.p(1, 2)) put(i, {0x48}); put(i, {0xcf}); break;
    case K_FARCALL: put(i, {0xff, 0x18}); break;
    case K_FARJMP: put(i, {0xff, 0x28}); break;
    case K_FARRET: if (sim.p(1, 3)) { put(i, {0xca}); putrnd(i, 2); } else put(i, {0xcb}); break;
    case K_PTWRITE: put(i, {0xf3, 0x0f, 0xae, 0xe0 + (int) sim.d(8)}); break;
    case K_MOVCR3: put(i, {0x0f, 0x22, 0xd8 + (int) sim.d(8)}); break;
    case K_VMCALL: put(i, {0x0f, 0x01, 0xc1}); break;
    case K_VMENTER: put(i, {0x0f, 0x01, 0xc2 + (int) sim.d(2)}); break;
    case K_VMPTRLD: put(i, {0x0f, 0xc7, 0x30}); break;
    case K_XEND: put(i, {0x0f, 0x01, 0xd5}); break;
    case K_XABORT: put(i, {0xc6, 0xf8}); putrnd(i, 1); break;
    case K_MWAIT: put(i, {0x0f, 0x01, 0xc9}); break;
    case K_JMPABS: put(i, {0xd5, 0x00, 0xa1}); i.size = 11; break;
    case K_UIRET: put(i, {0xf3, 0x0f, 0x01, 0xec}); break;
    case K_JCC: i.pre = (u8) sim.d(18); break;         // condition; 16: loop-like, 17: jrcxz
    case K_CALL0: put(i, {0xe8, 0, 0}); if (!m16) put(i, {0, 0}); break;
    default: break;
    }
}
static void enc_rel(SInsn &i, s64 d)       // with size already decided, d relative to the end
{
    bool m16 = i.mode == ptem_16bit; int n = 0; i.size = 0;
    if (i.k == K_JCC) { if (i.shortf) { put(i, {i.pre < 16 ? 0x70 + i.pre : i.pre == 16 ? 0xe2 : 0xe3}); n = 1; } else { put(i, {0x0f, 0x80 + (i.pre & 15)}); n = m16 ? 2 : 4; } }
    else if (i.k == K_JMP) { if (i.shortf) { put(i, {0xeb}); n = 1; } else { put(i, {0xe9}); n = m16 ? 2 : 4; } }
    else if (i.k == K_CALL) { put(i, {0xe8}); n = m16 ? 2 : 4; }
    else if (i.k == K_XBEGIN) { put(i, {0xc7, 0xf8}); n = m16 ? 2 : 4; }
    for (int k = 0; k < n; k++) i.raw[i.size++] = (u8)(d >> (8 * k));
}
static int relsize(const SInsn &i)
{
    bool m16 = i.mode == ptem_16bit; int n = m16 ? 2 : 4;
    switch (i.k) { case K_JCC: return i.shortf ? 2 : 2 + n; case K_JMP: return i.shortf ? 2 : 1 + n; case K_CALL: return 1 + n; case K_XBEGIN: return 2 + n; default: return i.size; }
}

void Machine::gen_feat()
{
    auto on = [&](u32 n, u32 d) { return sim.p(n, d); };
    f.user = true; f.os = !on(1, 5); f.retc = on(2, 3); f.filters = on(1, 3); f.procs = f.os && on(1, 3); f.cr3filter = f.procs && on(1, 4);
    f.intr = on(1, 2); f.psb = on(1, 2); f.modes = on(1, 4); f.far = on(1, 2); f.tsx = on(1, 4); f.vmx = f.os && on(1, 5); f.cfe = on(1, 3); f.ptw = on(1, 3); f.ptwfup = on(1, 2);
    f.pwr = on(1, 4); f.jmpabs = on(1, 5); f.uintr = on(1, 5); f.trig = on(1, 4); f.tnt64 = on(1, 4); f.tsc = on(1, 2); f.mtc = f.tsc && on(1, 2); f.cyc = on(1, 4); f.cbr = on(1, 2); f.mnt = on(1, 6);
    f.iflag = on(1, 4); f.iflags_ev = f.iflag; f.ovf = on(1, 4); f.stop = f.filters && on(1, 4); f.pad = on(1, 4); f.lostbits = on(1, 4);
    f.notsx = on(1, 2);
    f.nsteps = sim.range(4, on(1, 8) ? 1500 : 250);
    f.psb_rate = sim.range(10, 120); f.ovf_rate = sim.range(20, 150); f.intr_rate = sim.range(6, 60); f.misc_rate = sim.range(4, 30);
    f.large = on(1, 14); if (f.large) f.nsteps += sim.range(200, 2500);
    f.mtc_freq = (u8) sim.d(8); f.eax = 1 + sim.d(4); f.ebx = f.eax * (1 + sim.d(30)) + sim.d(5);
}

void Machine::gen_program()
{
    prog.nprocs = f.procs ? (int) sim.range(2, 3) : 1;
    for (int p = 0; p < prog.nprocs; p++) prog.cr3.push_back(f.os ? (u64)(p + 1) << 12 | (sim.d(2) ? 0x1000000000ull : 0) : (u64) 0x1000);
    struct MS { bool k; int proc, mode, twin = -1; };
    std::vector<MS> ms;
    int nk = (f.intr || f.far || !sim.d(2)) ? (int) sim.range(1, 2) : 0; if (f.intr || f.far || f.procs || f.vmx) nk = std::max(nk, 1);
    for (int i = 0; i < nk; i++) ms.push_back({true, -1, (f.modes && i) ? 1 + (int) sim.d(3) : (int) ptem_64bit});
    for (int p = 0; p < prog.nprocs; p++) { int nu = (int) sim.range(1, 3); for (int i = 0; i < nu; i++) ms.push_back({false, p, (f.modes && i) ? 1 + (int) sim.d(3) : (int) ptem_64bit}); }
    if (prog.nprocs > 1 && sim.d(2)) for (int p = 0, first = (int) ms.size(); p < prog.nprocs; p++) ms.push_back({true, p, (int) ptem_64bit, p ? first : -1});       // kernel code of each process at the same address
    std::map<int, u64> unext, u16next, u32next; u64 knext = 0xffffffff80000000ull, klow = 0xc0000000, k16 = 0x8000;
    for (size_t mi = 0; mi < ms.size(); mi++) {
        Module m; m.kernel = ms[mi].k; m.proc = ms[mi].proc; m.mode = ms[mi].mode;
        if (m.kernel) m.base = m.mode == ptem_64bit ? knext += 0x10000 : m.mode == ptem_32bit ? klow += 0x10000 : k16 += 0x2000;
        else {
            u64 &un = unext[m.proc], &u16 = u16next[m.proc], &u32n = u32next[m.proc];
            if (!un) { un = sim.d(2) ? 0x400000 : 0x7f0000000000ull; u16 = 0x400; u32n = 0x8000000; }
            if (m.mode == ptem_64bit) { m.base = un; un += sim.d(3) ? 0x4000 : 0x100000000ull; } else if (m.mode == ptem_32bit) { m.base = u32n; u32n += 0x4000; } else { m.base = u16; u16 += 0x1800; }
        }
        m.base += sim.d(0x300);
        m.filtered_in = !f.filters || sim.d(3) != 2; if (f.stop && !m.filtered_in && sim.d(2)) m.tracestop = true;
        if (mi && ms[mi].twin >= 0) { Module &o = prog.mods[ms[mi].twin]; m.base = o.base; m.filtered_in = o.filtered_in; m.tracestop = o.tracestop; }
        m.file = "/sim/mod" + std::to_string(mi); m.fileoff = sim.d(3) ? sim.d(0x2100) : 0;
        prog.mods.push_back(m);
    }
    if (f.filters) { bool any = false; for (auto &m : prog.mods) any |= m.filtered_in; if (!any) prog.mods[0].filtered_in = true; for (auto &m : prog.mods) if (m.filtered_in) m.tracestop = false; }
    for (size_t mi = 0; mi < prog.mods.size(); mi++) {
        Module &m = prog.mods[mi]; bool m64 = m.mode == ptem_64bit;
        if (ms[mi].twin >= 0) {          // same instructions, some of other bytes
            m.insns = prog.mods[ms[mi].twin].insns;
            for (auto &i : m.insns) { i.mod = (int) mi; if (i.k == K_NOP && sim.d(3)) for (int n = 0; n < 6; n++) { SInsn j; j.mode = m.mode; j.mod = (int) mi; j.k = K_NOP; enc_fixed(j); j.iclass = i.iclass; if (j.size == i.size && memcmp(j.raw, i.raw, i.size)) { i = j; break; } } }
            sim.count("twin-modules"); continue;
        }
        int n = (int) sim.range(3, sim.d(4) ? 40 : 90); u32 wn = 40; if (f.large && m64 && sim.d(2)) { n = (int) sim.range(200, 1300); wn = 40 << sim.d(8); }
        for (int j = 0; j < n; j++) {
            SInsn i; i.mode = m.mode; i.mod = (int) mi; bool last = j == n - 1;
            std::vector<std::pair<Kind, u32>> w;
            auto add = [&](Kind k, u32 x) { if (x) w.push_back({k, x}); };
            if (!last) { add(K_NOP, wn); add(K_JCC, 16); add(K_CALL0, 1); }
            add(K_RET, 5); add(K_JMPI, 3); add(K_JMP, last ? 0 : 6); if (!last) { add(K_CALL, 7); add(K_CALLI, 4); } else add(K_JMP, 2);
            if (f.jmpabs && m64) add(K_JMPABS, 3);
            if (f.far) { if (!last) { if (m64) add(K_SYSCALL, 3); add(K_INT, 2); add(K_FARCALL, 2); } add(K_FARJMP, 2); add(K_FARRET, 2); add(K_IRET, m.kernel ? 4 : 1); if (m.kernel && m64) add(K_SYSRET, 4); }
            else if (m.kernel) add(K_IRET, 5);
            if (!last) {
                if (f.ptw) add(K_PTWRITE, 5);
                if (m.kernel && f.procs) add(K_MOVCR3, 5);
                if (f.vmx) { if (m.kernel) { add(K_VMENTER, 3); add(K_VMPTRLD, 4); } add(K_VMCALL, 2); }
                if (f.tsx) { add(K_XBEGIN, 4); add(K_XEND, 4); add(K_XABORT, 1); }
                if (f.pwr && m.kernel) add(K_MWAIT, 4);
            }
            if (f.uintr && m64 && !m.kernel) add(K_UIRET, 3);
            u32 tot = 0; for (auto &x : w) tot += x.second; u32 r = sim.d(tot); for (auto &x : w) { if (r < x.second) { i.k = x.first; break; } r -= x.second; }
            enc_fixed(i); i.iclass = iclass_of(i.k);
            m.insns.push_back(i);
        }
    }
    // direct targets.  Loops that need no trace do not terminate by themselves, so no direct branch may close one.
    auto untraced_next = [&](int mod, int j, int &nm, int &nj) { SInsn &i = prog.mods[mod].insns[j]; if (needs_trace(i.k)) return false; if (i.k == K_JMP || i.k == K_CALL) { nm = i.tmod; nj = i.tidx; return nm >= 0; } nm = mod; nj = j + 1; return nj < (int) prog.mods[mod].insns.size(); };
    for (size_t mi = 0; mi < prog.mods.size(); mi++) {
        Module &m = prog.mods[mi];
        for (int j = 0; j < (int) m.insns.size(); j++) {
            SInsn &i = m.insns[j]; if (i.k != K_JCC && i.k != K_JMP && i.k != K_CALL && i.k != K_XBEGIN) continue;
            for (int tries = 0; ; tries++) {
                i.tmod = (int) mi; i.tidx = (int) sim.d((u32) m.insns.size());
                if (i.k != K_JCC && i.k != K_XBEGIN && m.mode == ptem_64bit && !sim.d(f.xmod)) {       // another module in reach
                    int o = (int) sim.d((u32) prog.mods.size()); Module &om = prog.mods[o];
                    s64 dist = (s64)(om.base - m.base); if (om.mode == m.mode && om.kernel == m.kernel && (om.proc < 0 || om.proc == m.proc) && dist < 0x7f000000 && dist > -0x7f000000) { i.tmod = o; i.tidx = (int) sim.d((u32) om.insns.size()); }
                }
                if (i.k == K_JCC || i.k == K_XBEGIN) break;
                if (i.k == K_CALL && i.tmod == (int) mi && i.tidx == j + 1) { if (tries < 8) continue; }
                else {
                    int cm = i.tmod, cj = i.tidx; bool loop = cm == (int) mi && cj == j;
                    for (int n = 0; !loop && n < 2000; n++) { int nm, nj; if (!untraced_next(cm, cj, nm, nj)) break; cm = nm; cj = nj; if (cm == (int) mi && cj == j) loop = true; if (n == 1999) loop = true; }
                    if (!loop) break;
                }
                if (tries >= 8) { i.k = K_RET; i.size = 0; put(i, {0xc3}); i.iclass = ptic_return; i.tmod = i.tidx = -1; break; }
            }
        }
    }
    // layout: start with short forms, grow until everything fits
    for (auto &m : prog.mods) for (auto &i : m.insns) if (i.tmod >= 0) { bool same = &prog.mods[i.tmod] == &m; i.shortf = same && (i.k == K_JMP || i.k == K_JCC) && (sim.d(4) || i.pre >= 16); }
    for (bool again = true; again; ) {
        again = false;
        for (auto &m : prog.mods) { u64 ip = m.base; for (auto &i : m.insns) { i.ip = ip; if (i.tmod >= 0) i.size = (u8) relsize(i); ip += i.size; } }
        for (auto &m : prog.mods) for (auto &i : m.insns) if (i.shortf) { s64 d = (s64)(prog.mods[i.tmod].insns[i.tidx].ip - (i.ip + i.size)); if (d < -128 || d > 127) { i.shortf = false; again = true; } }
    }
    for (auto &m : prog.mods) {
        for (size_t j = 0; j < m.insns.size(); j++) { SInsn &i = m.insns[j];
            if (i.tmod >= 0) { i.target = prog.mods[i.tmod].insns[i.tidx].ip; enc_rel(i, (s64)(i.target - (i.ip + relsize(i)))); if (i.k == K_CALL && i.target == i.ip + i.size) i.k = K_CALL0; }
            if (i.k == K_CALL0) i.target = i.ip + i.size;
            if (i.k == K_JMPABS) { Module &tm = m; i.target = tm.insns[sim.d((u32) tm.insns.size())].ip; for (int k = 0; k < 8; k++) i.raw[3 + k] = (u8)(i.target >> (8 * k)); }
            m.at[i.ip] = (int) j; m.code.insert(m.code.end(), i.raw, i.raw + i.size); }
    }
    if (f.vmx) for (int i = 0; i < 2; i++) vmcs_bases.push_back((u64)(i + 1) << 20);
}

// ---------------------------------------------------------------- packets
void Machine::out(std::initializer_list<u8> b) { t.trace.insert(t.trace.end(), b); }
void Machine::outn(u64 v, int n) { for (int i = 0; i < n; i++) t.trace.push_back((u8)(v >> (8 * i))); }
void Machine::pkt_ip(u8 op, u64 ip, bool sup, bool full)
{
    if (sup) { out({op}); return; }
    std::vector<int> ok;       // ipc
    if ((ip >> 16) == (lastip >> 16)) ok.push_back(1);
    if ((ip >> 32) == (lastip >> 32)) ok.push_back(2);
    if ((u64)((s64)(ip << 16) >> 16) == ip) ok.push_back(3);
    if ((ip >> 48) == (lastip >> 48)) ok.push_back(4);
    ok.push_back(6);
    if (full || ipfull) ok.assign(1, sim.d(2) ? 6 : (u64)((s64)(ip << 16) >> 16) == ip ? 3 : 6);
    int c = ok[sim.d((u32) ok.size())]; static const int len[] = {0, 2, 4, 6, 6, 0, 8};
    out({(u8)(op | c << 5)}); outn(ip, len[c]); lastip = ip; ipfull = false;
}
void Machine::set_anchor(size_t a)
{
    if (a <= t.anchor) return;
    for (size_t i = t.ev.size(); i-- > 0; ) { if (t.ev[i].hi != ~(size_t) 0) { if (t.ev[i].lo == t.ev[i].hi) continue; break; } t.ev[i].hi = a; }
    t.anchor = a;
}
void Machine::flush_tnt()
{
    size_t i = 0;
    while (i < tnt.size()) {
        size_t n = tnt.size() - i; bool big = f.tnt64 && (n > 6 || sim.p(1, 3)); size_t k = std::min<size_t>(n, big ? 47 : 6); if (k > 1 && sim.p(1, 6)) k = 1 + sim.d((u32) k);
        u64 v = 1; for (size_t j = 0; j < k; j++) v = v << 1 | (tnt[i + j].first ? 1 : 0);
        if (big) { out({0x02, 0xa3}); outn(v, 6); } else out({(u8)(v << 1)});
        for (size_t j = 0; j < k; j++) t.layer.push_back({0, (u8) tnt[i + j].first, 0, t.trace.size()});
        set_anchor(tnt[i + k - 1].second + 1); trig_anchor = tnt[i + k - 1].second + 1; trig_ok = true;
        i += k;
    }
    tnt.clear();
}
// Record an event.  bound: it is reported exactly after the first lo instructions.
pt_event &Machine::ev(int type, size_t lo, bool bound)
{
    TEv e; memset(&e.e, 0, sizeof e.e); e.e.type = (pt_event_type) type; e.lo = bound ? lo : t.anchor; e.hi = bound ? lo : ~(size_t) 0; e.off = t.trace.size();
    if (bound) set_anchor(lo);
    if (!pge && !bound) e.hi = e.lo = t.x.size();
    t.ev.push_back(e); t.layer.push_back({2, 0, t.ev.size() - 1, t.trace.size()});
    return t.ev.back().e;
}
void Machine::pkt_mode_exec(const St &s) { out({0x99, (u8)((s.mode == ptem_64bit ? 1 : s.mode == ptem_32bit ? 2 : 0) | (s.iflag ? 4 : 0))}); }
void Machine::pkt_pip() { out({0x02, 0x43}); u64 cr3 = prog.cr3[c.proc]; outn(((cr3 >> 5) << 1 | (c.nr ? 1 : 0)), 6); dcr3 = cr3; dnr = c.nr; }
void Machine::pkt_vmcs() { out({0x02, 0xc8}); outn(vmcs >> 12, 5); dvmcs = vmcs; }
// The events a MODE.EXEC packet causes, in the order they are reported
void Machine::ev_mode_at(const St &s, u64 ip, bool sup, size_t pos)
{
    if (!dm_valid || dm_mode != s.mode) { auto &e = ev(ptev_exec_mode, pos, true); e.variant.exec_mode.mode = (pt_exec_mode) s.mode; e.variant.exec_mode.ip = ip; e.ip_suppressed = sup; trig_anchor = pos; im = s.mode; dm_mode = s.mode; }
    if (f.iflags_ev && (!dm_valid || dm_if != s.iflag)) { auto &e = ev(ptev_iflags, pos, true); e.variant.iflags.iflag = s.iflag; e.variant.iflags.ip = ip; e.ip_suppressed = sup; if (!sup) { trig_anchor = pos; trig_ok = true; } }
    dm_if = s.iflag; dm_valid = true;
}

// ---------------------------------------------------------------- time
void Machine::advance(u64 d) { clk += d; }
void Machine::pkt_tsc()
{
    if (f.cycx) pkt_cyc(clk);
    out({0x19}); outn(clk, 7); tsc_seen = true; if (!f.mtc) tim(TK_TSC, clk);
    if (f.mtc && es.skz84 && sim.p(1, 3)) { show("erratum.skz84"); out({0x02, 0x73}); outn(sim.d(0x10000), 2); u32 z = sim.d(2) ? 0 : 1 + sim.d(255); out({(u8) z}); outn(z ? sim.d(0x10000) : 0x200 + sim.d(0xfe00), 2); out({(u8) sim.d(256)}); last_ctc = clk * f.eax / f.ebx; }
    else if (f.mtc) { u64 num = clk * f.eax, ctc = num / f.ebx; u64 fc = (num % f.ebx) / f.eax; out({0x02, 0x73}); outn(ctc & 0xffff, 2); out({0}); outn(fc & 0x1ff, 2); last_ctc = ctc; tim(TK_TSC, clk); }
}
void Machine::pkt_cyc(u64 upto)
{
    if (!f.cyc || upto < cyc_last) return;
    double cy = (double)(upto - cyc_last) * cbr / f.nom + cyc_frac; u64 n = (u64) cy; if (n < f.cycthr || !n) return;
    cyc_frac = cy - (double) n; cyc_last = upto;
    u64 v = n & 0x1f; u64 r = n >> 5; u8 b = (u8)(3 | v << 3 | (r ? 4 : 0)); if (er.skd007 && b == 0xf3 && cycend && cycend == t.trace.size()) b = 0xeb;      // would look like the erratum
    out({b}); while (r) { u8 x = (u8)((r & 0x7f) << 1); r >>= 7; out({(u8)(x | (r ? 1 : 0))}); }
    cycend = t.trace.size(); tim(TK_CYC, upto, n);
}
void Machine::timing(bool force)
{
    if (f.mtc && tsc_seen) {
        u64 ctc = clk * f.eax / f.ebx; u64 a = last_ctc >> f.mtc_freq, b = ctc >> f.mtc_freq;
        if (b > a) { if (b - a > 8) pkt_tsc(); else for (u64 k = a + 1; k <= b; k++) { u64 at = ((k << f.mtc_freq) * f.ebx + f.eax - 1) / f.eax; if (f.cycx) pkt_cyc(at); out({0x59, (u8) k}); tim(TK_MTC, at, k); } last_ctc = ctc; }
    }
    pkt_cyc(clk);
    if (f.tsc && (force || sim.p(1, 20))) pkt_tsc();
}

bool Machine::traced(const St &s) const
{
    if (!traceen || stopped) return false;
    if (s.cpl == 0 ? !f.os : !f.user) return false;
    if (f.cr3filter && s.proc != 0) return false;
    if (f.filters || f.stop) { const Module *m = prog.mod(s.proc, s.ip); if (f.filters ? !m || !m->filtered_in : m && m->tracestop) return false; }
    return true;
}
u64 Machine::pick(int mode, int kern, int proc)
{
    std::vector<int> v; for (size_t i = 0; i < prog.mods.size(); i++) { auto &m = prog.mods[i]; if ((mode < 0 || m.mode == mode) && (kern < 0 || m.kernel == (bool) kern) && (m.proc < 0 || m.proc == proc)) v.push_back((int) i); }
    if (v.empty()) return 0;
    auto &m = prog.mods[v[sim.d((u32) v.size())]]; return m.insns[sim.d((u32) m.insns.size())].ip;
}

// ---------------------------------------------------------------- synchronisation point
void Machine::psb(bool spur)
{
    // While tracing is disabled, a mode change since the last MODE packet cannot be expressed consistently; hardware sends nothing then.
    if (!pge && dm_valid && (dm_mode != c.mode || (f.iflags_ev && dm_if != c.iflag))) return;
    flush_tnt(); hw = 0; if (f.cycx) pkt_cyc(clk);
    SyncPt s; s.off = t.trace.size(); s.xi = t.x.size(); s.ev = t.ev.size(); s.layer = t.layer.size(); s.enabled = pge; s.ip = pge ? c.ip : 0; s.tsc = clk; s.proc = c.proc;
    for (int i = 0; i < 8; i++) out({0x02, 0x82});
    tim(TK_PSB, clk); lastip = 0; ipfull = false;
    size_t pos = t.x.size();
    std::vector<int> items; items.push_back(0); if (f.tsx || !f.notsx) items.push_back(1); if (f.os) items.push_back(2); if (vmcs_valid) items.push_back(3); if (f.cbr) items.push_back(4); if (pge || spur) items.push_back(5); if (f.tsc) items.push_back(6); if (f.mnt && sim.p(1, 4)) items.push_back(7);
    if (sim.p(1, 2)) for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[sim.d((u32) i)]);
    struct Q { int it; u64 pl; }; std::vector<Q> q;
    for (int it : items) {
        if (f.pad && sim.p(1, 6)) out({0});
        u64 pl = 0;
        switch (it) {
        case 0: pkt_mode_exec(c); break;
        case 1: out({0x99, (u8)(0x20 | (in_tx ? 1 : 0))}); break;
        case 2: pkt_pip(); break;
        case 3: pkt_vmcs(); break;
        case 4: out({0x02, 0x03, cbr, 0}); pl = cbr; tim(TK_CBR, clk, cbr | 0x100); break;
        case 5: pkt_ip(0x1d, spur && sim.d(2) ? pick(-1, -1, c.proc) : c.ip); ipfull = spur; break;
        case 6: pkt_tsc(); break;
        case 7: pl = sim.d64(); out({0x02, 0xc3, 0x88}); outn(pl, 8); break;
        }
        q.push_back({it, pl});
    }
    out({0x02, 0x23});
    { auto &e = ev(pge ? ptev_enabled : ptev_disabled, pos, false); e.status_update = 1; if (pge) e.variant.enabled.ip = c.ip; else e.ip_suppressed = 1; }
    bool seen_bound = false; trig_ok = false;
    for (auto &x : q) {
        auto bnd = [&](int type) -> pt_event & { auto &e = ev(type, pos, pge); seen_bound |= pge; e.status_update = 1; if (!pge) e.ip_suppressed = 1; return e; };
        switch (x.it) {
        case 0: { auto &e = bnd(ptev_exec_mode); e.variant.exec_mode.mode = (pt_exec_mode) c.mode; e.variant.exec_mode.ip = c.ip; trig_anchor = pos; trig_ok = true; im = c.mode; }
            if (f.iflags_ev) { auto &e = bnd(ptev_iflags); e.variant.iflags.iflag = c.iflag; e.variant.iflags.ip = c.ip; }
            if (!dm_valid) { dm_if = c.iflag; } dm_valid = true; dm_mode = c.mode; break;
        case 1: { auto &e = bnd(ptev_tsx); e.variant.tsx.speculative = in_tx; e.variant.tsx.ip = c.ip; trig_anchor = pos; trig_ok = true; } break;
        case 2: { auto &e = bnd(ptev_async_paging); e.variant.async_paging.cr3 = prog.cr3[c.proc]; e.variant.async_paging.non_root = c.nr; e.variant.async_paging.ip = c.ip; } break;
        case 3: { auto &e = bnd(ptev_async_vmcs); e.variant.async_vmcs.base = vmcs; e.variant.async_vmcs.ip = c.ip; if (pge) { trig_anchor = pos; trig_ok = true; } } break;
        case 4: { auto &e = ev(ptev_cbr, pos, seen_bound && pge); e.status_update = 1; e.variant.cbr.ratio = (u16) x.pl; } break;
        case 7: { auto &e = ev(ptev_mnt, pos, seen_bound && pge); e.variant.mnt.payload = x.pl; } break;
        }
    }
    s.end = t.trace.size(); t.sync.push_back(s); sim.count("psb"); if (!spur) pend12 = false;
}

// ---------------------------------------------------------------- enable/disable
void Machine::enable()
{
    flush_tnt(); pend12 = false;
    if (es.bdm70 && !(er.skd010 && ovf_off) && sim.p(1, 3)) { size_t n = t.sync.size(); psb(true); if (t.sync.size() > n) { show("erratum.bdm70"); if (f.pad && sim.d(2)) out({0}); if (sim.p(1, 3)) timing(); } }
    bool mp = mode_pkt_needed(c) || sim.p(1, 3);
    if (mp) pkt_mode_exec(c);
    pkt_ip(0x11, c.ip); pge = true; ovf_off = false; size_t pos = t.x.size();
    { auto &e = ev(ptev_enabled, pos, true); e.variant.enabled.ip = c.ip; } trig_anchor = pos; trig_ok = true;
    if (mp) ev_mode_at(c, c.ip, false, pos);
    sim.count("enable");
}
// synchronous: the branch that was just retired left the traced region
void Machine::disable_sync(size_t pos, bool sup, u64 ip)
{
    flush_tnt(); pkt_ip(0x01, ip, sup); auto &e = ev(ptev_disabled, pos, true); e.variant.disabled.ip = sup ? 0 : ip; e.ip_suppressed = sup; pge = false; hw = 0; trig_ok = false; set_anchor(pos);
    sim.count("disable");
}
static bool ctx_on(const Machine &m, const Machine::St &s) { return m.traceen && !m.stopped && (s.cpl == 0 ? m.f.os : m.f.user) && !(m.f.cr3filter && s.proc); }

// After c changed while tracing was disabled or by an event that has its own packets: (re-)enable, STOP
void Machine::after_state()
{
    if (lost) return;
    if (!pge && traceen && !stopped && f.stop) { const Module *m = prog.mod(c.proc, c.ip); if (m && m->tracestop && ctx_on(*this, c)) { out({0x02, 0x83}); ev(ptev_stop, t.x.size(), false); stopped = true; pend12 = false; sim.count("stop"); return; } }
    if (!pge && traced(c)) enable();
}
// Asynchronous transfer from c to ns.  The FUP (with events bound to it) has been emitted.
void Machine::async_to(const St &ns, bool, bool pip, bool vm)
{
    size_t pos = t.x.size(); u64 from = c.ip; bool tr = traced(ns);
    if (er.skd022 && !tr) { const SInsn *vi = prog.find(c.proc, c.ip); if (vi && vi->k == K_VMENTER) ambiguous = true; }
    c = ns;
    bool mp = tr && (mode_pkt_needed(ns) || sim.p(1, 5));
    struct B { int k; }; std::vector<int> order; if (mp) order.push_back(0); if (pip) order.push_back(1); if (vm) order.push_back(2);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[sim.d((u32) i)]);
    for (int k : order) { if (k == 0) pkt_mode_exec(ns); else if (k == 1) pkt_pip(); else pkt_vmcs(); }
    if (sim.p(1, 8)) timing();
    // reported order: queue order, but a VMCS seen after a PIP takes its place and the PIP moves to the end
    std::vector<int> rep; for (int k : order) { auto it = std::find(rep.begin(), rep.end(), 1); if (k == 2 && it != rep.end()) { *it = 2; rep.push_back(1); } else rep.push_back(k); }
    bool sup = false;
    if (tr) { pkt_ip(0x0d, ns.ip); auto &e = ev(ptev_async_branch, pos, true); e.variant.async_branch.from = from; e.variant.async_branch.to = ns.ip; trig_anchor = pos; trig_ok = true; }
    else { sup = !ctx_on(*this, ns) || sim.p(1, 8); pkt_ip(0x01, ns.ip, sup); auto &e = ev(ptev_async_disabled, pos, true); e.variant.async_disabled.at = from; e.variant.async_disabled.ip = sup ? 0 : ns.ip; e.ip_suppressed = sup; pge = false; hw = 0; trig_ok = false; set_anchor(pos); sim.count("async-disable"); }
    for (int k : rep) {
        if (k == 0) ev_mode_at(ns, ns.ip, !tr, pos);
        else if (k == 1) { auto &e = ev(ptev_async_paging, pos, true); e.variant.async_paging.cr3 = prog.cr3[ns.proc]; e.variant.async_paging.non_root = ns.nr; e.variant.async_paging.ip = ns.ip; e.ip_suppressed = !tr; }
        else { auto &e = ev(ptev_async_vmcs, pos, true); e.variant.async_vmcs.base = vmcs; e.variant.async_vmcs.ip = ns.ip; e.ip_suppressed = !tr; if (tr) trig_anchor = pos; }
    }
    set_anchor(pos);
}

void Machine::tx_abort()
{
    St ns = c; ns.ip = tx_fallback; in_tx = false; sim.count("tx-abort");
    if (lost || stopped) { c = ns; return; }
    flush_tnt(); out({0x99, 0x22});
    if (!pge) { auto &e = ev(ptev_tsx, t.x.size(), false); e.variant.tsx.aborted = 1; e.ip_suppressed = 1; c = ns; after_state(); return; }
    pkt_ip(0x1d, c.ip); { auto &e = ev(ptev_tsx, t.x.size(), true); e.variant.tsx.aborted = 1; e.variant.tsx.ip = c.ip; trig_anchor = t.x.size(); }
    async_to(ns, true, false, false); after_state();
}

void Machine::interrupt()
{
    if (in_tx) { tx_abort(); return; }
    int kind = 0;       // 0 interrupt, 1 vm exit, 2 user interrupt, 3 smi (untraced), 4 init-like
    if (c.nr && have_host && sim.d(2)) kind = 1;
    else if (f.uintr && c.cpl == 3 && c.mode == ptem_64bit && sim.p(1, 3)) kind = 2;
    else if (f.cfe && sim.p(1, 6)) kind = 3;
    else if (f.cfe && sim.p(1, 12)) kind = 4;
    St ns = c; bool pip = false, vm = false;
    switch (kind) {
    case 0: case 3: case 4: ns.cpl = 0; ns.ip = pick(-1, 1, c.proc); if (!ns.ip) return; break;
    case 1: ns = host; ns.nr = false; pip = f.os; vm = vmcs_valid && f.os && sim.p(1, 3); break;
    case 2: ns.ip = pick(ptem_64bit, 0, c.proc); if (!ns.ip) return; break;
    }
    { const Module *m = prog.mod(ns.proc, ns.ip); ns.mode = m->mode; if (kind != 2) ns.iflag = kind == 1 ? ns.iflag : !sim.d(2); }
    if (kind == 1) have_host = false;
    u8 vec = (u8) sim.d(256); u64 cr2 = sim.d64(), q1 = sim.d64(), q2 = sim.d64(); bool hascr2 = sim.p(1, 3), hv = sim.p(1, 2), hq = sim.p(1, 2), hr = sim.p(1, 2);
    if (kind != 3 && frames.size() < 20 && kind != 1) frames.push_back({c});
    sim.count(kind == 0 ? "interrupt" : kind == 1 ? "vmexit" : kind == 2 ? "uintr" : kind == 3 ? "smi" : "init");
    if (lost || stopped) { c = ns; return; }
    size_t pos = t.x.size(); u64 from = c.ip;
    flush_tnt();
    auto cfe = [&](bool ips) {
        if (!f.cfe && kind != 2) return;
        switch (kind) {
        case 0: if (hascr2) { out({0x02, 0x53, 0}); outn(cr2, 8); } out({0x02, 0x13, 0x01, vec}); break;
        case 1: { bool rf = sim.p(1, 2); for (int k = 0; k < 2; k++) { bool r = (k == 0) == rf; if (r && hr) { out({0x02, 0x53, 0x02}); outn(q2, 8); } if (!r && hq) { out({0x02, 0x53, 0x01}); outn(q1, 8); } } out({0x02, 0x13, (u8)(hv ? 0x09 : 0x08), vec}); } break;
        case 2: out({0x02, 0x13, 0x0c, vec}); break;
        case 3: out({0x02, 0x13, 0x03, 0}); break;
        case 4: out({0x02, 0x13, 0x06, 0}); break;
        }
    };
    auto cfe_ev = [&](bool ips) {
        if (!f.cfe && kind != 2) return;
        static const int ty[] = { ptev_interrupt, ptev_vmexit, ptev_uintr, ptev_smi, ptev_init };
        auto &e = ev(ty[kind], pos, !ips); e.ip_suppressed = ips; u64 ip = ips ? 0 : from; if (!ips) { trig_anchor = pos; trig_ok = true; }
        switch (kind) {
        case 0: e.variant.interrupt.vector = vec; e.variant.interrupt.has_cr2 = hascr2; e.variant.interrupt.cr2 = cr2; e.variant.interrupt.ip = ip; break;
        case 1: e.variant.vmexit.has_vector = hv; e.variant.vmexit.vector = vec; e.variant.vmexit.has_vmxq = hq; e.variant.vmexit.vmxq = q1; e.variant.vmexit.has_vmxr = hr; e.variant.vmexit.vmxr = q2; e.variant.vmexit.ip = ip; break;
        case 2: e.variant.uintr.vector = vec; e.variant.uintr.ip = ip; break;
        case 3: e.variant.smi.ip = ip; break;
        case 4: e.variant.init.ip = ip; break;
        }
    };
    if (!pge) {
        cfe(true); cfe_ev(true); c = ns;
        if (kind == 1 && f.os && traceen && !stopped) { pkt_pip(); auto &e = ev(ptev_paging, pos, false); e.variant.paging.cr3 = prog.cr3[c.proc]; e.variant.paging.non_root = c.nr; if (vm) { pkt_vmcs(); auto &v = ev(ptev_vmcs, pos, false); v.variant.vmcs.base = vmcs; } }
        after_state(); return;
    }
    cfe(false); pkt_ip(0x1d, from); cfe_ev(false);
    if (kind == 3 && er.skd022) { const SInsn *vi = prog.find(c.proc, c.ip); if (vi && vi->k == K_VMENTER) ambiguous = true; }
    if (kind == 3) {          // the SMM handler is never traced; we come back with RSM
        St back = c; bool sup = sim.p(1, 2); pkt_ip(0x01, ns.ip, sup); auto &e = ev(ptev_async_disabled, pos, true); e.variant.async_disabled.at = from; e.variant.async_disabled.ip = sup ? 0 : ns.ip; e.ip_suppressed = sup; pge = false; hw = 0; trig_ok = false; set_anchor(pos);
        if (sim.p(1, 3)) misc();
        if (sim.p(3, 4)) { out({0x02, 0x13, 0x04, 0}); auto &r = ev(ptev_rsm, pos, false); r.ip_suppressed = 1; }
        c = back; after_state(); return;
    }
    async_to(ns, true, pip, vm); after_state();
}

// ---------------------------------------------------------------- overflow
void Machine::ovf_enter()
{
    sim.count("fault.buffer-overflow");
    if (sim.d(2)) flush_tnt(); else tnt.clear();
    if (pge) t.x.resize(t.anchor);
    for (auto &e : t.ev) if (e.hi == ~(size_t) 0 || e.hi > t.anchor) e.hi = t.anchor;
    lost = true; pge = false;
    if (in_tx && sim.d(2)) { in_tx = false; }
}
void Machine::ovf_leave()
{
    if (in_tx) in_tx = false;          // committed or aborted while we were not looking
    bool tr = traced(c); hw = 0; lastip = 0; ipfull = false; lost = false; cyc_last = clk; last_ctc = clk * f.eax / f.ebx;
    bool stale = im != c.mode || dcr3 != prog.cr3[c.proc] || dnr != c.nr || (vmcs_valid && dvmcs != vmcs) || (f.iflags_ev && dm_if != c.iflag);
    if (es.skd007 && f.cyc && sim.p(2, 3)) { show("erratum.skd007"); out({(u8)(7 | sim.d(32) << 3)}); }
    out({0x02, 0xf3}); tim(TK_OVF, clk); dm_valid = false;
    if (f.tsc && sim.d(2)) pkt_tsc();
    size_t pos = t.x.size(); set_anchor(pos);
    if (tr) {
        if (f.pad && sim.d(2)) out({0});
        if (es.skd010 && sim.p(1, 2)) {       // no FUP: the first IP is that of the next branch target or PSB+
            show("erratum.skd010"); pge = true; auto &e = ev(ptev_overflow, pos, true); e.variant.overflow.ip = c.ip; trig_anchor = pos; trig_ok = true; sim.count("overflow-resume"); t.ev.back().off = t.trace.size();
            if (sim.d(2)) { size_t n = t.sync.size(); psb(); if (t.sync.size() > n) t.sync.back().stale = stale; return; }
            for (u32 n = sim.d(4); n > 0; n--) switch (sim.d(5)) { case 0: if (f.os) pkt_pip(); break; case 1: if (f.cbr) { cbr = (u8)(8 + sim.d(40)); out({0x02, 0x03, cbr, 0}); cyc_last = clk; cyc_frac = 0; } break; case 2: if (f.tsc) pkt_tsc(); break; case 3: if (f.mnt) { out({0x02, 0xc3, 0x88}); outn(sim.d64(), 8); } break; case 4: if (f.pwr) { out({0x02, 0x22, 0, 0x12}); } break; }
            pkt_ip(0x0d, c.ip, false, true); if (stale || dm_mode != c.mode) { size_t n = t.sync.size(); psb(); if (t.sync.size() > n) t.sync.back().stale = true; }
            return;
        }
        pkt_ip(0x1d, c.ip, false, true); pge = true; auto &e = ev(ptev_overflow, pos, true); e.variant.overflow.ip = c.ip; trig_anchor = pos; trig_ok = true; sim.count("overflow-resume");
        if (stale) { size_t n = t.sync.size(); psb(); if (t.sync.size() > n) t.sync.back().stale = true; }
    } else {
        pge = false; auto &e = ev(ptev_overflow, pos, false); e.ip_suppressed = 1; trig_ok = false; sim.count("overflow-disabled"); ovf_off = true;
        if ((es.apl11 || es.skd010) && sim.p(1, 2)) { show(es.apl11 ? "erratum.apl11" : "erratum.skd010-disabled"); bool sup = es.apl11 || sim.d(2); pkt_ip(0x01, c.ip, sup, true); ipfull = true; }
        else if (es.apl12 && sim.p(1, 2)) { show("erratum.apl12"); if (f.pad && sim.d(2)) out({0}); pkt_ip(0x1d, sim.d(2) ? c.ip : pick(-1, -1, c.proc), false, true); ipfull = pend12 = true; if (sim.d(2)) { psb(); if (stale) t.sync.back().stale = true; after_state(); return; } }
        // the next packet must not be a timing packet followed by a FUP; PSB+ re-establishes what the decoder lost
        if (stale && f.os) { size_t n = t.sync.size(); psb(); if (t.sync.size() > n) t.sync.back().stale = true; }
        after_state();
    }
}

// ---------------------------------------------------------------- packets at any time
void Machine::misc()
{
    if (lost || stopped) return;
    switch (sim.d(10)) {
    case 0: if (f.cbr) { if (f.cycx) pkt_cyc(clk); cbr = (u8)(8 + sim.d(40)); out({0x02, 0x03, cbr, 0}); tim(TK_CBR, clk, cbr); auto &e = ev(ptev_cbr, t.x.size(), false); e.variant.cbr.ratio = cbr; cyc_last = clk; cyc_frac = 0; } break;
    case 1: if (f.mnt) { u64 v = sim.d64(); out({0x02, 0xc3, 0x88}); outn(v, 8); auto &e = ev(ptev_mnt, t.x.size(), false); e.variant.mnt.payload = v; } break;
    case 2: timing(); break;
    case 3: if (f.pad) out({0}); break;
    case 4: if (f.pwr) { if (sim.d(2)) flush_tnt();
            if (sim.d(2)) { u8 st = (u8) sim.d(16), ss = (u8) sim.d(16); bool hwb = sim.d(2); out({0x02, 0x22, (u8)(hwb ? 0x08 : 0), (u8)(st << 4 | ss)}); auto &e = ev(ptev_pwre, t.x.size(), false); e.variant.pwre.state = st; e.variant.pwre.sub_state = ss; e.variant.pwre.hw = hwb; }
            else { u8 la = (u8) sim.d(16), de = (u8) sim.d(16), r = (u8)(1 << sim.d(3)); u8 rr = r == 1 ? 1 : r == 2 ? 4 : 8; out({0x02, 0xa2, (u8)(la << 4 | de), rr, 0, 0, 0}); auto &e = ev(ptev_pwrx, t.x.size(), false); e.variant.pwrx.last = la; e.variant.pwrx.deepest = de; e.variant.pwrx.interrupt = rr & 1; e.variant.pwrx.store = !!(rr & 4); e.variant.pwrx.autonomous = !!(rr & 8); } } break;
    case 5: if (f.pwr) { flush_tnt(); bool ip = pge && sim.d(2); out({0x02, (u8)(ip ? 0xe2 : 0x62)}); if (ip) pkt_ip(0x1d, c.ip); auto &e = ev(ptev_exstop, t.x.size(), ip); e.ip_suppressed = !ip; e.variant.exstop.ip = ip ? c.ip : 0; if (ip) { trig_anchor = t.x.size(); trig_ok = true; } } break;
    case 6: if (f.trig) { flush_tnt(); u8 trbv = (u8) sim.d(16), mult = sim.d(2) ? 0x20 : 0; int how = (int) sim.d(3); size_t pos = t.x.size();
            if (how == 1 && !(pge && trig_ok && pos >= trig_anchor && pos - trig_anchor < 0xffff)) how = 0;
            if (how == 0) { out({0xd9, mult, trbv}); auto &e = ev(ptev_trig, pos, false); e.ip_suppressed = 1; e.variant.trig.trbv = trbv; e.variant.trig.mult = !!mult; }
            else if (how == 1) { u64 n = pos - trig_anchor; out({0xd9, (u8)(0x40 | mult), trbv, (u8) n, (u8)(n >> 8)}); auto &e = ev(ptev_trig, pos, true); e.variant.trig.trbv = trbv; e.variant.trig.mult = !!mult; e.variant.trig.ip = c.ip; e.variant.trig.icnt = (u16) n; trig_anchor = pos; }
            else { out({0xd9, (u8)(0xc0 | mult), trbv, 0, 0}); pkt_ip(0x1d, c.ip); auto &e = ev(ptev_trig, pos, true); e.variant.trig.trbv = trbv; e.variant.trig.mult = !!mult; e.variant.trig.ip = c.ip; trig_anchor = pos; trig_ok = pge; }
            sim.count("trig"); } break;
    case 7: if (f.cfe && sim.p(1, 3)) { flush_tnt(); bool ip = pge; out({0x02, 0x13, (u8)(0x0a | (ip ? 0x80 : 0)), 0}); if (ip) pkt_ip(0x1d, c.ip); auto &e = ev(ptev_shutdown, t.x.size(), ip); e.ip_suppressed = !ip; e.variant.shutdown.ip = ip ? c.ip : 0; if (ip) { trig_anchor = t.x.size(); trig_ok = true; } }
        else if (f.cfe && !pge && sim.p(1, 2)) { u8 v = (u8) sim.d(256); out({0x02, 0x13, 0x05, v}); auto &e = ev(ptev_sipi, t.x.size(), false); e.ip_suppressed = 1; e.variant.sipi.vector = v; } break;
    case 8: if (f.iflag && pge && !in_tx) { flush_tnt(); c.iflag = !c.iflag; pkt_mode_exec(c); pkt_ip(0x1d, c.ip); ev_mode_at(c, c.ip, false, t.x.size()); } break;
    default: break;
    }
}

// ---------------------------------------------------------------- one instruction
void Machine::exec(const SInsn *i)
{
    St n = c; u64 next = i->ip + i->size; n.ip = next; size_t k = t.x.size(); bool tr = pge;
    if (tr) { XI x; memset(&x, 0, sizeof x); x.ip = i->ip; x.size = i->size; memcpy(x.raw, i->raw, i->size); x.mode = (u8) i->mode; x.iclass = (u8) i->iclass; x.spec = in_tx; x.traced = needs_trace(i->k); x.proc = c.proc; x.si = i; x.vmcs = dvmcs; t.x.push_back(x); }
    enum { SEQ, DIRECT, COND, IND, RETN, FAR } how = SEQ; bool taken = false;
    auto far_to = [&](int kern) { n.ip = pick(-1, kern, n.proc); if (!n.ip) n.ip = pick(-1, -1, n.proc); const Module *m = prog.mod(n.proc, n.ip); n.mode = m->mode; n.cpl = m->kernel ? 0 : 3; how = FAR; };
    bool pip = false, vmc = false, vmentry = false;
    switch (i->k) {
    case K_NOP: case K_CALL0: break;
    case K_JCC: how = COND; taken = sim.d(2); if (taken) n.ip = i->target; break;
    case K_JMP: how = DIRECT; n.ip = i->target; break;
    case K_CALL: how = DIRECT; n.ip = i->target; cstack.push_back(next); break;
    case K_JMPI: how = IND; n.ip = pick(c.mode, c.cpl == 0, c.proc); break;
    case K_JMPABS: how = IND; n.ip = i->target; break;
    case K_CALLI: how = IND; n.ip = pick(c.mode, c.cpl == 0, c.proc); cstack.push_back(next); break;
    case K_RET: { how = RETN; bool ok = false; if (sim.d(8) || !sim.d(2)) while (!cstack.empty() && !ok) { u64 r = cstack.back(); const SInsn *ri = prog.find(c.proc, r); if (ri && ri->mode == c.mode && prog.mod(c.proc, r)->kernel == (c.cpl == 0)) { n.ip = r; ok = true; } cstack.pop_back(); }
            if (!ok) n.ip = pick(c.mode, c.cpl == 0, c.proc); } break;
    case K_SYSCALL: case K_INT: if (frames.size() < 20) { St fr = c; fr.ip = next; frames.push_back({fr}); } far_to(1); n.iflag = sim.d(2) || !f.iflag; break;
    case K_FARCALL: case K_FARJMP: far_to(c.cpl == 0 ? (int) sim.d(2) : (int) !sim.d(4)); break;
    case K_FARRET: case K_SYSRET: far_to(c.cpl == 0 ? (int) !sim.d(3) : 0); break;
    case K_IRET: case K_UIRET: {
        bool ok = false;
        while (!frames.empty() && !ok) { St fr = frames.back().s; frames.pop_back(); if (fr.proc == c.proc && fr.nr == c.nr && prog.find(fr.proc, fr.ip)) { if (i->k == K_UIRET && fr.cpl != 3) continue; n = fr; ok = true; } }
        if (!ok) { if (i->k == K_UIRET) { n.ip = pick(ptem_64bit, 0, c.proc); } else far_to(c.cpl == 0 ? (int) sim.d(2) : 0); }
        how = FAR; } break;
    case K_VMCALL: if (c.nr && have_host) { n = host; n.nr = false; have_host = false; how = FAR; pip = f.os; vmc = vmcs_valid && sim.p(1, 4); } else how = SEQ; break;
    case K_VMENTER: if (!c.nr && vmcs_valid) { host = c; host.ip = next; have_host = prog.find(c.proc, next) != nullptr; n.nr = true; n.proc = (int) sim.d((u32) prog.nprocs); far_to((int) sim.d(2)); n.nr = true; pip = f.os; vmentry = true; vmc = f.os && sim.p(1, 3); } else how = SEQ; break;
    case K_VMPTRLD: if (!c.nr) { vmcs = vmcs_bases[sim.d((u32) vmcs_bases.size())]; vmcs_valid = true; } break;
    case K_MOVCR3: { int p = (int) sim.d((u32) prog.nprocs); const SInsn *ni = prog.find(p, next); if (ni && ni->mode == c.mode && prog.mod(p, next)->kernel) { n.proc = p; if (p != c.proc && prog.mod(c.proc, next)->proc >= 0) sim.count("cr3-changes-code"); } } break;
    default: break;
    }
    // VMCALL outside a guest and VM entry without a VMCS fault; so do privileged instructions. Turn them into an exception at this instruction.
    bool fault = ((i->k == K_VMCALL || i->k == K_VMENTER) && how == SEQ) || (i->k == K_VMPTRLD && c.nr);
    bool txbad = in_tx && (how == FAR || i->k == K_MOVCR3 || i->k == K_XABORT || i->k == K_VMPTRLD || i->k == K_MWAIT || i->k == K_PTWRITE);
    if (fault || txbad) {
        if (tr) t.x.pop_back();
        if (txbad) { tx_abort(); return; }
        // an exception: architecturally an interrupt at this instruction
        u64 before = c.ip; interrupt();
        if (c.ip == before && prog.find(c.proc, c.ip) == i) {      // could not be delivered: a debugger moves us on
            St ns = c; ns.ip = pick(c.mode, c.cpl == 0, c.proc);
            if (!lost && pge) { flush_tnt(); pkt_ip(0x1d, before); async_to(ns, true, false, false); } else c = ns;
            after_state();
        }
        return;
    }
    sim.count(tr ? "insn" : "insn-untraced");
    bool tr2 = !lost && traced(n);
    if (lost || stopped) { c = n; if (i->k == K_XBEGIN && !in_tx && f.tsx) { in_tx = true; tx_fallback = i->target; } if (i->k == K_XEND) in_tx = false; return; }
    if (!tr) {
        c = n;
        if (i->k == K_XBEGIN && !in_tx) { in_tx = true; tx_fallback = i->target; out({0x99, 0x21}); auto &e = ev(ptev_tsx, k, false); e.variant.tsx.speculative = 1; e.ip_suppressed = 1; }
        else if (i->k == K_XEND && in_tx) { in_tx = false; out({0x99, 0x20}); auto &e = ev(ptev_tsx, k, false); e.ip_suppressed = 1; }
        if (f.os && traceen && !stopped && (i->k == K_MOVCR3 || pip)) { pkt_pip(); auto &e = ev(ptev_paging, k, false); e.variant.paging.cr3 = prog.cr3[c.proc]; e.variant.paging.non_root = c.nr; }
        if (f.os && traceen && !stopped && (i->k == K_VMPTRLD && vmcs_valid && !c.nr)) { pkt_vmcs(); auto &e = ev(ptev_vmcs, k, false); e.variant.vmcs.base = vmcs; }
        after_state(); return;
    }
    // ---- tracing is on: emit what this instruction generates
    auto cret = [&](int type, int cfetype) {        // events of returning/entering instructions, before the branch packet
        flush_tnt(); bool ip = sim.d(2); out({0x02, 0x13, (u8)(cfetype | (ip ? 0x80 : 0)), 0}); if (ip) pkt_ip(0x1d, i->ip);
        auto &e = ev(type, k + 1, true); e.ip_suppressed = !ip; if (ip) trig_ok = false; if (ip) switch (type) { case ptev_iret: e.variant.iret.ip = i->ip; break; case ptev_uiret: e.variant.uiret.ip = i->ip; break; default: e.variant.vmentry.ip = i->ip; } };
    switch (i->k) {
    case K_PTWRITE: if (f.ptw) { flush_tnt(); bool ip = f.ptwfup; int pb = (int) sim.d(2); u64 v = pb ? sim.d64() : sim.dbits(32); out({0x02, (u8)(0x12 | pb << 5 | (ip ? 0x80 : 0))}); outn(v, pb ? 8 : 4); if (ip) pkt_ip(0x1d, i->ip);
            auto &e = ev(ptev_ptwrite, k + 1, true); if (ip) trig_ok = false; e.ip_suppressed = !ip; e.variant.ptwrite.ip = ip ? i->ip : 0; e.variant.ptwrite.size = pb ? 8 : 4; e.variant.ptwrite.payload = v; } break;
    case K_MOVCR3: if (f.os) { flush_tnt(); St o = c; c = n; pkt_pip(); c = o; auto &e = ev(ptev_paging, k + 1, true); e.variant.paging.cr3 = prog.cr3[n.proc]; e.variant.paging.non_root = n.nr; } break;
    case K_VMPTRLD: if (vmcs_valid && !c.nr && f.os) { flush_tnt(); pkt_vmcs(); auto &e = ev(ptev_vmcs, k + 1, true); e.variant.vmcs.base = vmcs; } break;
    case K_XBEGIN: if (!in_tx) { in_tx = true; tx_fallback = i->target; flush_tnt(); out({0x99, 0x21}); pkt_ip(0x1d, next); auto &e = ev(ptev_tsx, k + 1, true); e.variant.tsx.speculative = 1; e.variant.tsx.ip = next; trig_anchor = k + 1; sim.count("tx-begin"); } break;
    case K_XEND: if (in_tx) { in_tx = false; flush_tnt(); out({0x99, 0x20}); pkt_ip(0x1d, next); auto &e = ev(ptev_tsx, k + 1, true); e.variant.tsx.ip = next; trig_anchor = k + 1; } break;
    case K_MWAIT: if (f.pwr) { flush_tnt(); u32 hints = (u32) sim.dbits(8), ext = (u32) sim.d(2); bool ip = sim.d(2); out({0x02, 0xc2}); outn(hints, 4); outn(ext, 4);
            if (sim.d(2)) { out({0x02, 0x22, 0, 0x12}); auto &e = ev(ptev_pwre, t.x.size(), false); e.variant.pwre.state = 1; e.variant.pwre.sub_state = 2; }
            out({0x02, (u8)(ip ? 0xe2 : 0x62)}); if (ip) pkt_ip(0x1d, next);
            { auto &e = ev(ptev_mwait, k + 1, ip); e.ip_suppressed = !ip; e.variant.mwait.ip = ip ? next : 0; e.variant.mwait.hints = hints; e.variant.mwait.ext = ext; }
            { auto &e = ev(ptev_exstop, k + 1, ip); e.ip_suppressed = !ip; e.variant.exstop.ip = ip ? next : 0; if (ip) { trig_anchor = k + 1; trig_ok = true; } } } break;
    case K_IRET: if (f.cfe) cret(ptev_iret, 0x02); break;
    case K_UIRET: if (f.cfe || f.uintr) cret(ptev_uiret, 0x0d); break;
    case K_VMENTER: if (f.cfe) cret(ptev_vmentry, 0x07); break;
    case K_INT: if (f.cfe && sim.d(2)) { flush_tnt(); u8 vec = (u8) sim.d(256); out({0x02, 0x13, 0x81, vec}); pkt_ip(0x1d, i->ip); auto &e = ev(ptev_interrupt, k, true); e.variant.interrupt.vector = vec; e.variant.interrupt.ip = i->ip; } break;
    default: break;
    }
    bool skd = vmentry && es.skd022 && !f.cfe && sim.p(1, 2);
    if (!skd && (pip || vmc)) {
        flush_tnt(); St o = c; c = n; bool pf = sim.d(2);
        for (int a = 0; a < 2; a++) { if ((a == 0) == pf) { if (pip) { pkt_pip(); auto &e = ev(ptev_paging, k + 1, true); e.variant.paging.cr3 = prog.cr3[n.proc]; e.variant.paging.non_root = n.nr; } } else if (vmc) { pkt_vmcs(); auto &e = ev(ptev_vmcs, k + 1, true); e.variant.vmcs.base = vmcs; } }
        c = o;
    }
    if (skd) {        // the VM entry cleared TraceEn; tracing comes back some time later with a new PSB+
        show("erratum.skd022"); layers = false; flush_tnt(); if (sim.p(1, 8)) timing(); pkt_ip(0x1d, i->ip); bool sup = sim.p(3, 4); bool cr3 = false;
        for (size_t q = k + 1; q > 0 && (q > k || !t.x[q - 1].traced) && k + 1 - q < 300; q--) { if (t.x[q - 1].ip == n.ip) sup = true; cr3 |= q <= k && t.x[q - 1].si->k == K_MOVCR3; }     // a target inside the path is ambiguous
        if (cr3 && std::any_of(t.x.begin() + (k > 300 ? k - 300 : 0), t.x.end(), [&](const XI &x) { return x.ip == n.ip; })) ambiguous = true;
        disable_sync(k + 1, sup && !cr3, n.ip); stopped = true; c = n; return;
    }
    u64 dtop = drs.empty() ? 0 : drs.back(); bool iscall = i->k == K_CALL || i->k == K_CALLI;
    auto push = [&]() { if (iscall && tr2) { drs.push_back(next); if (drs.size() > 64) drs.erase(drs.begin()); if (hw == 64) sim.count("return-stack-full"); hw = std::min<size_t>(hw + 1, 64); } };
    switch (how) {
    case SEQ: if (!tr2) { sim.count("cr3-untraced"); // MOV CR3 into a context that is not traced
            disable_sync(k + 1, true, 0); } break;
    case DIRECT: if (!tr2) {
            bool sup = es.skl014 && sim.p(2, 3); for (size_t q = k; sup && q > 0 && !t.x[q - 1].traced; q--) if (t.x[q - 1].si->k == K_MOVCR3) sup = false;
            if (sup) show("erratum.skl014");
            disable_sync(k + 1, sup, n.ip); } else push(); break;
    case COND: if (taken && !tr2) { disable_sync(k + 1, false, n.ip); t.x[k].brk = true; } else { tnt.push_back({taken, k}); if (tnt.size() >= (f.tnt64 ? 47u : 6u) || sim.p(1, 16)) flush_tnt(); } break;
    case RETN:
        if (tr2 && f.retc && hw && !drs.empty() && dtop == n.ip && sim.d(16)) { drs.pop_back(); hw--; tnt.push_back({true, k}); sim.count("ret-compressed"); if (tnt.size() >= (f.tnt64 ? 47u : 6u)) flush_tnt(); break; }
        /* fallthrough */
    case IND: case FAR:
        if (!tr2) {
            bool sup = !ctx_on(*this, n) || (how == FAR && sim.p(1, 8));
            // Without an IP, an earlier MOV CR3 in reach could just as well have been the one that left the traced context: the trace would be ambiguous.
            for (size_t q = k; sup && q > 0 && !t.x[q - 1].traced && k - q < 300; q--) if (t.x[q - 1].si->k == K_MOVCR3) sup = false;
            disable_sync(k + 1, sup, n.ip); break; }
        push(); flush_tnt();
        { bool mp = how == FAR && (mode_pkt_needed(n) || sim.p(1, 6)); if (mp) pkt_mode_exec(n); if (sim.p(1, 16)) timing();
          u64 tip = n.ip; bool bad = in_tx && es.bdm64 && how != FAR && sim.p(1, 2) && wrong_target(n.ip, tip);
          pkt_ip(0x0d, tip); t.layer.push_back({1, 0, tip, t.trace.size()}); set_anchor(k + 1);
          if (bad) { show("erratum.bdm64"); c = n; tx_abort(); return; }       // the branch retired, then the transaction aborts
          trig_anchor = k + 1; trig_ok = true;
          if (mp) ev_mode_at(n, n.ip, false, k + 1); }
        break;
    }
    c = n; after_state();
}

void Machine::mark_cut()
{
    if (lost || t.sync.empty()) return;
    CutPt k; k.off = t.trace.size(); k.anchor = t.anchor; k.xi = t.x.size(); k.ev = t.ev.size(); k.layer = t.layer.size(); k.on = pge || t.anchor < t.x.size();
    if (t.anchor < t.x.size()) { k.next_ip = t.x[t.anchor].ip; k.proc = t.x[t.anchor].proc; } else { k.next_ip = c.ip; k.proc = c.proc; }
    t.cuts.push_back(k);
}
// A target from which the decoder cannot get to the good one without the trace
bool Machine::wrong_target(u64 good, u64 &bad)
{
    u64 w = sim.d(4) ? pick(c.mode, c.cpl == 0, c.proc) : (good & ~0xfffull) + sim.d(0x1000); const SInsn *i = prog.find(c.proc, w);
    if (!i && prog.mod(c.proc, w)) return false;         // not inside instructions
    u64 ip = w; for (int n = 0; n < 0x120; n++) { if (ip == good) return false; const SInsn *j = prog.find(c.proc, ip); if (!j || needs_trace(j->k)) break; ip = (j->k == K_JMP || j->k == K_CALL) ? j->target : j->ip + j->size; }       // or loops without it
    bad = w; return true;
}
void Machine::step()
{
    mark_cut();
    advance(1 + sim.d(f.maxadv));
    if (!lost && !stopped) timing();
    if (lost) { if (sim.p(1, 12)) { ovf_leave(); return; } }
    else {
        if (f.ovf && !stopped && !pend12 && sim.p(1, f.ovf_rate)) { ovf_enter(); return; }
        if (f.psb && !stopped && sim.p(1, f.psb_rate)) psb();
        if (stopped && sim.p(1, 25)) { if (dm_valid && dm_mode == c.mode && (!f.iflags_ev || dm_if == c.iflag)) { stopped = false; psb(); after_state(); } }
        while (sim.p(1, f.misc_rate)) misc();
        if (f.intr && sim.p(1, f.intr_rate)) interrupt();
    }
    const SInsn *i = prog.find(c.proc, c.ip);
    if (!i) { fprintf(stderr, "simulator bug: no instruction at %llx in process %d\n", (unsigned long long) c.ip, c.proc); abort(); }
    LOG("  cpu %s%s%s %016llx kind %d mode %d proc %d", lost ? "lost" : pge ? "" : "off", in_tx ? " tx" : "", c.nr ? " nr" : "", (unsigned long long) c.ip, i->k, c.mode, c.proc);
    exec(i);
}

void Machine::run()
{
    { std::vector<int> v; for (size_t i = 0; i < prog.mods.size(); i++) v.push_back((int) i); auto &m = prog.mods[prog.mods.size() - 1 - sim.d((u32) v.size())]; c.proc = m.proc < 0 ? 0 : m.proc; c.cpl = m.kernel ? 0 : 3; c.mode = m.mode; c.ip = m.insns[sim.d((u32) m.insns.size())].ip; }
    clk = 1000 + sim.d(1 << 20); last_ctc = clk * f.eax / f.ebx; cyc_last = clk;
    psb(); after_state();
    for (u32 n = 0; n < f.nsteps; n++) step();
    if (lost) ovf_leave();
    if (pend12 && !stopped) psb();      // APL12 shows only with what follows
    mark_cut();
    if (pge && !f.lostbits) flush_tnt();
    if (pge) {           // run on to the first branch whose outcome the trace does not hold
        for (size_t k = t.anchor; ; k++) {
            if (k >= t.x.size()) {
                const SInsn *i = prog.find(c.proc, c.ip); XI x; memset(&x, 0, sizeof x); x.ip = i->ip; x.size = i->size; memcpy(x.raw, i->raw, i->size); x.mode = (u8) i->mode; x.iclass = (u8) i->iclass; x.spec = in_tx; x.traced = needs_trace(i->k); x.proc = c.proc; x.si = i; x.vmcs = dvmcs; t.x.push_back(x);
                c.ip = (i->k == K_JMP || i->k == K_CALL) ? i->target : i->ip + i->size;
            }
            if (t.x[k].traced) { t.x.resize(k + 1); break; }
        }
        t.tail_open = true; if (sim.verbose) for (size_t k = t.x.size() > 10 ? t.x.size() - 10 : 0; k < t.x.size(); k++) LOG("  truth %zu %llx kind %d", k, (unsigned long long) t.x[k].ip, t.x[k].si->k);
    }
    for (auto &e : t.ev) if (e.hi == ~(size_t) 0) e.hi = t.x.size();
    sim.simtime += clk;
    sim.count("trace-bytes", t.trace.size()); sim.count("events", t.ev.size());
    for (auto &m : prog.mods) sim.count("modules"), (void) m;
    if (sim.verbose && getenv("SIM_DUMP")) { FILE *fp = fopen(getenv("SIM_DUMP"), "wb"); if (fp) { fwrite(t.trace.data(), 1, t.trace.size(), fp); fclose(fp); } }
    for (u8 b : t.trace) sim.h(b);
}

void Machine::config(pt_config *cfg) const
{
    memset(cfg, 0, sizeof *cfg); cfg->size = sizeof *cfg; cfg->cpuid_0x15_eax = f.eax; cfg->cpuid_0x15_ebx = f.ebx; cfg->mtc_freq = f.mtc_freq; cfg->nom_freq = f.nom;
    cfg->errata.bdm70 = er.bdm70; cfg->errata.bdm64 = er.bdm64; cfg->errata.skd007 = er.skd007; cfg->errata.skd022 = er.skd022; cfg->errata.skd010 = er.skd010; cfg->errata.skl014 = er.skl014; cfg->errata.apl12 = er.apl12; cfg->errata.apl11 = er.apl11; cfg->errata.skz84 = er.skz84; cfg->errata.skl168 = er.skl168;
    if (er.skl014 && (f.filters || f.stop)) {
        int n = 0; for (auto &m : prog.mods) if ((f.filters && m.filtered_in) || m.tracestop) { u64 a = m.base, b = m.base + m.code.size() - 1; auto &af = cfg->addr_filter; unsigned k = m.tracestop ? 2 : 1;
            switch (n++) { case 0: af.config.ctl.addr0_cfg = k; af.addr0_a = a; af.addr0_b = b; break; case 1: af.config.ctl.addr1_cfg = k; af.addr1_a = a; af.addr1_b = b; break;
            case 2: af.config.ctl.addr2_cfg = k; af.addr2_a = a; af.addr2_b = b; break; case 3: af.config.ctl.addr3_cfg = k; af.addr3_a = a; af.addr3_b = b; break; } }
    }
}
