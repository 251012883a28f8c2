// The simulated processor: program, execution, trace hardware.  Produces a trace and the truth about it.
#pragma once
#include "sim.h"
#include "seam.h"
#include <cstring>
extern "C" {
#include "intel-pt.h"
}

enum Kind : u8 { K_NOP, K_JCC, K_JMP, K_JMPI, K_CALL, K_CALL0, K_CALLI, K_RET, K_SYSCALL, K_SYSRET, K_INT, K_IRET, K_FARCALL, K_FARJMP, K_FARRET,
    K_PTWRITE, K_MOVCR3, K_VMCALL, K_VMENTER, K_VMPTRLD, K_XBEGIN, K_XEND, K_XABORT, K_MWAIT, K_JMPABS, K_UIRET, K_NKINDS };

struct SInsn { u64 ip = 0; u8 raw[15] = {}; u8 size = 0; Kind k = K_NOP; int iclass = 0; int mode = 0; u64 target = 0; int mod = 0;
    // generation
    int tmod = -1, tidx = -1; bool shortf = false; u8 pre = 0; };

struct Module { u64 base = 0; std::vector<u8> code; int mode = 0; bool kernel = false; int proc = -1; bool filtered_in = true; bool tracestop = false; bool callback = false;
    std::vector<SInsn> insns; std::map<u64, int> at; std::string file; u64 fileoff = 0; };

struct Program { std::vector<Module> mods; int nprocs = 1; std::vector<u64> cr3;
    const SInsn *find(int proc, u64 ip) const { const Module *m = mod(proc, ip); if (!m) return nullptr; auto i = m->at.find(ip); return i == m->at.end() ? nullptr : &m->insns[i->second]; }
    const Module *mod(int proc, u64 ip) const { for (auto &m : mods) if ((m.proc < 0 || m.proc == proc) && ip >= m.base && ip < m.base + m.code.size()) return &m; return nullptr; }
};

struct Feat { // what the simulated trace hardware and workload do
    bool notsx = false, user = true, os = true, retc = true, filters = false, cr3filter = false, tsc = false, mtc = false, cyc = false, tnt64 = false, cfe = false, ptw = false, ptwfup = true, pwr = false,
        tsx = false, vmx = false, intr = false, modes = false, procs = false, jmpabs = false, uintr = false, trig = false, cbr = false, mnt = false, iflag = false, psb = false, ovf = false, stop = false, pad = false, far = false;
    bool iflags_ev = false;            // decoder option the truth depends on
    bool large = false;                // a long function
    bool lostbits = false;             // pending conditional outcomes may be lost at the end of the trace
    u32 nsteps = 100, psb_rate = 40, ovf_rate = 60, intr_rate = 30, misc_rate = 12;
    u8 mtc_freq = 3; u32 eax = 2, ebx = 250; u8 nom = 30; bool cycx = false; u32 cycthr = 0; u32 maxadv = 40; u32 xmod = 3;     // cycx: a CYC precedes every MTC; cycthr: cycles below which no CYC is sent
};

// Processor errata: what the decoder is told, and what the simulated hardware shows.
struct Err { bool bdm70 = false, bdm64 = false, skd007 = false, skd022 = false, skd010 = false, skl014 = false, apl12 = false, apl11 = false, skz84 = false, skl168 = false; };

struct XI { u64 ip; u8 size; u8 raw[15]; u8 mode, iclass; bool spec; bool traced; bool brk; int proc; const SInsn *si; u64 vmcs; };
struct TEv { pt_event e; size_t lo, hi; u64 off; bool nocheck_su = false; };
struct LItem { u8 kind; u8 bit; u64 v; u64 off; };     // 0 conditional branch, 1 TIP, 2 event
struct SyncPt { u64 off, ip; size_t xi, ev, layer; bool enabled; u64 end; u64 tsc; int proc = 0; bool stale = false; };
struct CutPt { u64 off = 0; size_t anchor = 0, xi = 0, ev = 0, layer = 0; u64 next_ip = 0; int proc = 0; bool on = false, loose = false; };   // a moment at which the trace holds only complete packet sequences
enum { TK_TSC, TK_MTC, TK_CYC, TK_CBR, TK_OVF, TK_PSB };
struct TimRec { u64 off; u8 kind; u64 clk; u64 v; };    // a timing packet (its end): the clock, and: MTC the period number, CYC the cycles, CBR the ratio

struct Truth { std::vector<XI> x; std::vector<TEv> ev; std::vector<LItem> layer; std::vector<SyncPt> sync; std::vector<CutPt> cuts; std::vector<u8> trace; bool tail_open = false; size_t anchor = 0;
    std::vector<TimRec> tim; };

struct Machine {
    Program prog; Feat f; Truth t; Err er, es; u64 shown = 0; bool ambiguous = false, pend12 = false, layers = true, ipfull = false, ovf_off = false; u64 cycend = 0;
    std::vector<u64> vmcs_bases;
    void gen_feat();               // swarm
    void gen_program();
    void run();
    void build(u32 nsteps = 0) { gen_feat(); if (nsteps) f.nsteps = nsteps; gen_program(); run(); }
    void config(pt_config *c) const;   // trace buffer not set

    // ---- CPU state
    struct St { u64 ip = 0; int cpl = 3, mode = 0, proc = 0; bool nr = false, iflag = true; } c;
    struct Frame { St s; };
    std::vector<Frame> frames; std::vector<u64> cstack;
    bool in_tx = false; u64 tx_fallback = 0; St host; bool have_host = false;
    u64 vmcs = 0; bool vmcs_valid = false;
    bool traceen = true, stopped = false, pge = false, lost = false;
    // ---- what a decoder knows
    bool dm_valid = false; int dm_mode = -1; bool dm_if = true; int im = -1; u64 dcr3 = 0; bool dnr = false; u64 dvmcs = 0;
    std::vector<u64> drs; size_t hw = 0; u64 lastip = 0; size_t trig_anchor = 0; bool trig_ok = false;
    std::vector<std::pair<bool, size_t>> tnt;
    // ---- clock
    u64 clk = 1000; u64 last_ctc = 0; u64 cyc_last = 0; u8 cbr = 20; bool tsc_seen = false; double cyc_frac = 0;

    bool traced(const St &s) const;
    void out(std::initializer_list<u8> b); void outn(u64 v, int n);
    void pkt_ip(u8 op, u64 ip, bool sup = false, bool full = false);
    void flush_tnt(); void set_anchor(size_t a);
    pt_event &ev(int type, size_t lo, bool bound); 
    void pkt_mode_exec(const St &s); void pkt_pip(); void pkt_vmcs();
    bool mode_pkt_needed(const St &s) { return !dm_valid || dm_mode != s.mode || (f.iflags_ev && dm_if != s.iflag); }
    void mark_cut(); void psb(bool spurious = false); bool wrong_target(u64 good, u64 &bad); void show(const char *e) { shown++; sim.count(e); } void timing(bool force = false); void misc(); void pkt_tsc(); void pkt_cyc(u64 upto); void advance(u64 d); void tim(u8 k, u64 at, u64 v = 0) { t.tim.push_back({t.trace.size(), k, at, v}); }
    void ev_mode_at(const St &s, u64 ip, bool suppressed, size_t pos);
    void enable(); void disable_sync(size_t pos, bool sup, u64 ip);
    void async_to(const St &ns, bool fup_done, bool pip, bool vm);
    void interrupt(); void tx_abort(); void ovf_enter(); void ovf_leave(); void step(); void after_state();
    void exec(const SInsn *i);
    u64 pick(int mode, int kern, int proc); int modes_of(int kern, int proc, int mode);
    u64 layer_off() { return t.trace.size(); }
};
std::string ev_str(const pt_event &e);
const char *ev_name(int type);
void ev_canon(const pt_event &e, std::vector<u64> &v, bool time);
