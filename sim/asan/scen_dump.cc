// C27: the dump tool, run whole inside the simulator, against a reference listing.
#include "../scen/decode.h"
#include "../scen/sb_world.h"
#include <algorithm>
extern "C" {
#include "pt_time.h"
int ptdump_main(int, char **);
FILE *ptdump_stdout, *ptdump_stderr;
}
#define X(v) ((unsigned long long)(v))
std::vector<u8> damaged_trace(Machine &m);
void random_packet(std::vector<u8> &d, const Machine &m);
struct SbLines; SbLines *sb_lines(SbOs &os, u32 flags); void sb_lines_free(SbLines *); bool sb_lines_line(SbLines *, const std::string &, u64); void sb_lines_time(SbLines *, u64);

static std::string fm(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fm(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string squeeze(const std::string &s) { std::string r; for (char c : s) { if (c == ' ' || c == '\t') { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c; } while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }

struct Opt { bool offset = true, raw = false, lastip = false, em = false, track = false, time = false, tcal = false, delta = false, keep = false, quiet = false, nopad = false, nosync = false, notcal = false, nowall = false, notiming = false, nocyc = false; };
struct Step { enum { LINE, ERR, SB } k; std::string s; u64 v; };

// What must be printed for the packets of a trace.
struct Listing {
    const Opt &o; const pt_config &cf; std::vector<Step> steps; u64 lip = 0; bool sup = false, have = false, hdr = false; pt_time time; pt_time_cal cal; u64 tsc = 0, fcr = 0, packets = 0, errors = 0;
    Listing(const Opt &o_, const pt_config &c) : o(o_), cf(c) { reset(); }
    void reset() { lip = 0; sup = have = hdr = false; tsc = fcr = 0; pt_time_init(&time); pt_tcal_init(&cal); }
    static std::string ip(const pt_packet_ip &p)
    {
        switch ((int) p.ipc) { case 0: return "0: ????????????????"; case 1: return fm("1: ????????????%04llx", X(p.ip)); case 2: return fm("2: ????????%08llx", X(p.ip)); case 3: return fm("3: %016llx", X((u64)((s64)(p.ip << 16) >> 16))); case 4: return fm("4: ????%012llx", X(p.ip)); case 6: return fm("6: %016llx", X(p.ip)); }
        sim.fail("packet", "the packet decoder returns an IP of unknown compression %x", p.ipc); return "";
    }
    std::string track_ip(const pt_packet_ip &p)
    {
        auto low = [&](int b) { lip = (lip & (~0ull << b)) | (p.ip & ~(~0ull << b)); };
        switch ((int) p.ipc) { case 0: sup = true; break; case 1: low(16); sup = false; break; case 2: low(32); sup = false; break; case 4: low(48); sup = false; break; case 3: lip = (u64)((s64)(p.ip << 16) >> 16); sup = false; break; default: lip = p.ip; sup = false; break; }
        have = have || !sup; return !have ? " ip <unavailable>" : sup ? " ip <suppressed>" : fm(" ip %016llx", X(lip));
    }
    std::string timing(bool cal_here, bool time_here)
    {
        std::string s; u64 t = 0; int r;
        if (o.tcal && cal_here) { u64 f = 0; if (pt_tcal_fcr(&f, &cal) < 0) s = " fcr <unavailable>"; else { double d = (double) f / (1ull << pt_tcal_fcr_shr); if (o.delta) { s = fm(" fcr %+.3f", d - (double) fcr / (1ull << pt_tcal_fcr_shr)); fcr = f; } else s = fm(" fcr %.3f", d); } }
        r = pt_time_query_tsc(&t, nullptr, nullptr, &time);
        if (o.time && time_here) { if (r < 0 && !(r == -pte_no_time && o.nowall)) s = " tsc <unavailable>"; else if (o.delta) { s = tsc <= t ? fm(" tsc +%llx", X(t - tsc)) : fm(" tsc -%llx", X(tsc - t)); tsc = t; } else s = fm(" tsc %016llx", X(t)); }
        steps.push_back({Step::SB, "", t}); return s.size() > 5 + 16 ? s.substr(0, 5 + 16) : s;      // the column is 16 wide
    }
    void packet(const pt_packet &p, u64 off)
    {
        auto &y = p.payload; std::string op, pl, tr; bool skip = false; packets++;
        switch ((int) p.type) {
        case ppt_psb: op = "psb"; lip = 0; sup = have = false; hdr = true; if (o.track) (void) pt_tcal_update_psb(&cal, &cf); break;
        case ppt_psbend: op = "psbend"; hdr = false; break;
        case ppt_pad: op = "pad"; skip = o.nopad; break;
        case ppt_ovf: op = "ovf"; hdr = false; if (o.track) { if (o.keep) (void) pt_tcal_update_ovf(&cal, &cf); else pt_tcal_init(&cal); } break;
        case ppt_stop: op = "stop"; break;
        case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: op = p.type == ppt_fup ? "fup" : p.type == ppt_tip ? "tip" : p.type == ppt_tip_pge ? "tip.pge" : "tip.pgd"; pl = ip(y.ip); if (o.lastip) tr = track_ip(y.ip); break;
        case ppt_pip: op = "pip"; pl = fm("%llx%s", X(y.pip.cr3), y.pip.nr ? ", nr" : ""); tr = fm(" cr3 %016llx", X(y.pip.cr3)); break;
        case ppt_vmcs: op = "vmcs"; pl = fm("%llx", X(y.vmcs.base)); tr = fm(" vmcs %016llx", X(y.vmcs.base)); break;
        case ppt_tnt_8: case ppt_tnt_64: op = p.type == ppt_tnt_8 ? "tnt.8" : "tnt.64"; for (int k = y.tnt.bit_size - 1; k >= 0; k--) pl += y.tnt.payload >> k & 1 ? '!' : '.'; break;
        case ppt_mode: if (y.mode.leaf == pt_mol_tsx) { op = "mode.tsx"; pl = y.mode.bits.tsx.intx ? y.mode.bits.tsx.abrt ? "intx, abrt" : "intx" : y.mode.bits.tsx.abrt ? "abrt" : ""; }
            else { auto &e = y.mode.bits.exec; op = "mode.exec"; if (e.csd) pl = "cs.d"; if (e.csl) pl += pl.empty() ? "cs.l" : ", cs.l"; if (e.iflag) pl += pl.empty() ? "if" : ", if"; if (o.em) tr = std::string(" em ") + (e.csl ? e.csd ? "unknown" : "64-bit" : e.csd ? "32-bit" : "16-bit"); } break;
        case ppt_tsc: op = "tsc"; pl = fm("%llx", X(y.tsc.tsc)); skip = o.notiming; if (o.track) { if (!o.notcal) (void) (hdr ? pt_tcal_header_tsc(&cal, &y.tsc, &cf) : pt_tcal_update_tsc(&cal, &y.tsc, &cf)); (void) pt_time_update_tsc(&time, &y.tsc, &cf); tr = timing(true, true); } break;
        case ppt_cbr: op = "cbr"; pl = fm("%x", y.cbr.ratio); skip = o.notiming; if (o.track) { if (!o.notcal) (void) (hdr ? pt_tcal_header_cbr(&cal, &y.cbr, &cf) : pt_tcal_update_cbr(&cal, &y.cbr, &cf)); (void) pt_time_update_cbr(&time, &y.cbr, &cf); tr = timing(true, false); } break;
        case ppt_tma: op = "tma"; pl = fm("%x, %x", y.tma.ctc, y.tma.fc); skip = o.notiming; if (o.track) { if (!o.notcal) (void) pt_tcal_update_tma(&cal, &y.tma, &cf); (void) pt_time_update_tma(&time, &y.tma, &cf); tr = timing(false, true); } break;
        case ppt_mtc: op = "mtc"; pl = fm("%x", y.mtc.ctc); skip = o.notiming; if (o.track) { if (!o.notcal) (void) pt_tcal_update_mtc(&cal, &y.mtc, &cf); (void) pt_time_update_mtc(&time, &y.mtc, &cf); tr = timing(true, true); } break;
        case ppt_cyc: op = "cyc"; pl = fm("%llx", X(y.cyc.value)); skip = o.notiming || o.nocyc; if (o.track && !o.nocyc) { u64 f = 0; if (!o.notcal) { (void) pt_tcal_fcr(&f, &cal); (void) pt_tcal_update_cyc(&cal, &y.cyc, &cf); } (void) pt_time_update_cyc(&time, &y.cyc, &cf, f); tr = timing(false, true); } break;
        case ppt_mnt: op = "mnt"; pl = fm("%llx", X(y.mnt.payload)); break;
        case ppt_exstop: op = "exstop"; pl = y.exstop.ip ? "ip" : ""; break;
        case ppt_mwait: op = "mwait"; pl = fm("%08x, %08x", y.mwait.hints, y.mwait.ext); break;
        case ppt_pwre: op = "pwre"; pl = fm("c%u.%u%s", (y.pwre.state + 1) & 15, (y.pwre.sub_state + 1) & 15, y.pwre.hw ? ", hw" : ""); break;
        case ppt_pwrx: { int n = y.pwrx.interrupt + y.pwrx.store + y.pwrx.autonomous; op = "pwrx"; pl = fm("%s: c%u, c%u", n != 1 ? "bad" : y.pwrx.interrupt ? "int" : y.pwrx.store ? "st" : "hw", (y.pwrx.last + 1) & 15, (y.pwrx.deepest + 1) & 15); } break;
        case ppt_ptw: op = "ptw"; pl = fm("%x: %llx%s", y.ptw.plc, X(y.ptw.payload), y.ptw.ip ? ", ip" : ""); break;
        case ppt_cfe: op = "cfe"; switch ((int) y.cfe.type) { case pt_cfe_intr: case pt_cfe_vmexit_intr: case pt_cfe_uintr: pl = fm("%u: %u", y.cfe.type, y.cfe.vector); break; case pt_cfe_sipi: pl = fm("%u: %x", y.cfe.type, y.cfe.vector); break; default: pl = fm("%u", y.cfe.type); } if (y.cfe.ip) pl += ", ip"; break;
        case ppt_evd: op = "evd"; pl = fm("%u: %llx", y.evd.type, X(y.evd.payload)); break;
        case ppt_trig: op = "trig"; pl = fm("%02x%s%s", y.trig.trbv, y.trig.ip ? ", ip" : "", y.trig.mult ? ", mult" : ""); if (y.trig.icntv) pl += fm(", icnt: %u", y.trig.icnt); break;
        case ppt_invalid: op = "<invalid>"; break;      // an erratum
        default: sim.fail("packet", "the packet decoder returns a packet of type %d", p.type);
        }
        if (skip || o.quiet) return;
        std::string s; if (o.offset) s = fm("%016llx ", X(off)); if (o.raw) { for (u8 k = 0; k < p.size; k++) s += fm("%02x", cf.begin[off + k]); s += ' '; }
        steps.push_back({Step::LINE, squeeze(s + op + " " + pl + tr), off});
    }
    void make()
    {
        pt_packet_decoder *d = pt_pkt_alloc_decoder(&cf); if (!d) sim.fail("setup", "no packet decoder"); struct F { pt_packet_decoder *d; ~F() { pt_pkt_free_decoder(d); } } fr{d};
        int r = o.nosync ? pt_pkt_sync_set(d, 0) : pt_pkt_sync_forward(d);
        while (r >= 0) {
            for (;;) { uint64_t off = 0; (void) pt_pkt_get_offset(d, &off); pt_packet p; r = pt_pkt_next(d, &p, sizeof p); if (r == -pte_eos) return; if (r < 0) { steps.push_back({Step::ERR, "", off}); errors++; break; } packet(p, off); }
            r = pt_pkt_sync_forward(d); reset();
        }
    }
};

static std::string num(u64 v) { return fm(sim.d(2) ? "0x%llx" : "%llu", X(v)); }
static const char *badnum() { static const char *n[] = {"", "x", "12x", "0x", "99999999999999999999", "0x1ffffffffffffffffff", "1 ", "--time", "1.5"}; return n[sim.d(9)]; }
typedef std::vector<std::string> Args;
static void c27()
{
    seam.reset(); 
    { Machine m; m.gen_feat(); Feat &f = m.f; if (sim.p(2, 3)) { f.tsc = true; f.mtc = sim.d(2); f.cyc = sim.d(2); f.cbr = sim.d(2); } f.nsteps = sim.range(5, 120); m.gen_program(); m.run();
      std::vector<u8> d = sim.p(1, 2) ? m.t.trace : damaged_trace(m); if (sim.p(1, 4)) for (u32 n = 1 + sim.d(12); n--;) { std::vector<u8> c; random_packet(c, m); size_t a = sim.d((u32) d.size() + 1); d.insert(d.begin() + (long) a, c.begin(), c.end()); }
      static const char *names[] = {"/sim/trace", "/sim/tr:ace", "/sim/trace:", "/sim/1:2x"}; std::string name = names[sim.p(1, 6) ? 1 + sim.d(3) : 0]; bool bad = false;
      // ---- the command line, and what it means
      Opt o; std::vector<Args> opts; pt_config cf; memset(&cf, 0, sizeof cf); cf.size = sizeof cf; u32 sbf = 0; std::string why;
      struct Eff { Args a; std::function<void()> f; }; std::vector<Eff> es; auto flag = [&](const char *n, u32 den, std::function<void()> fn) { if (sim.p(1, den)) es.push_back({{n}, fn}); };
      flag("--no-pad", 4, [&] { o.nopad = true; }); flag("--no-timing", 8, [&] { o.notiming = true; }); flag("--no-cyc", 8, [&] { o.nocyc = true; }); flag("--no-offset", 6, [&] { o.offset = false; }); flag("--raw", 3, [&] { o.raw = true; }); flag("--lastip", 2, [&] { o.lastip = true; }); flag("--exec-mode", 2, [&] { o.em = true; });
      if (sim.d(2)) flag("--time", 1 + sim.d(2), [&] { o.track = o.time = true; }); else flag("--tcal", 2, [&] { o.track = o.tcal = true; });
      flag("--time-delta", 4, [&] { o.delta = true; }); flag("--no-tcal", 8, [&] { o.notcal = true; }); flag("--no-wall-clock", 4, [&] { o.nowall = true; }); flag("--keep-tcal-on-ovf", 3, [&] { o.keep = true; }); flag("--quiet", 12, [&] { o.quiet = true; sbf = 0; }); flag("--no-sync", 6, [&] { o.nosync = true; });
      if (sim.p(3, 4)) es.push_back({{"--mtc-freq", num(f.mtc_freq)}, [&] { cf.mtc_freq = f.mtc_freq; }}); if (sim.p(3, 4)) es.push_back({{"--nom-freq", num(f.nom)}, [&] { cf.nom_freq = f.nom; }});
      if (sim.p(3, 4)) es.push_back({{"--cpuid-0x15.eax", num(f.eax)}, [&] { cf.cpuid_0x15_eax = f.eax; }}); if (sim.p(3, 4)) es.push_back({{"--cpuid-0x15.ebx", num(f.ebx)}, [&] { cf.cpuid_0x15_ebx = f.ebx; }});
      if (sim.p(1, 4)) { static const u16 mo[] = {0x3d, 0x47, 0x4e, 0x5e, 0x55, 0x5c, 0x8e, 0x9e, 0x97, 1}; u32 md = mo[sim.d(10)], st = sim.d(16); std::string s = fm("6/%u", md); if (sim.d(2)) s += fm("/%u", st); else st = 0; es.push_back({{"--cpu", s}, [&cf, md, st] { cf.cpu.vendor = pcv_intel; cf.cpu.family = 6; cf.cpu.model = (u8) md; cf.cpu.stepping = (u8) st; }}); if (sim.p(1, 8)) es.push_back({{"--cpu", "none"}, [&cf] { memset(&cf.cpu, 0, sizeof cf.cpu); }}); }
      // ---- sideband
      SbOs os; bool sb = sim.p(1, 3); if (sb) {
          os.files(); os.t = sim.d(2) ? 990 : sim.d(1000); u64 span = m.clk > os.t ? m.clk - os.t : 1; u32 n = sim.range(3, 40); os.step = std::max<u64>(1, span / (2 * n)); os.streams();
          for (size_t c = 0; c < os.run.size(); c++) { std::vector<u32> v{0}; os.tick(); os.sched((int) c, 0); }
          int init = (int) sim.d((u32) os.st.size()); u32 pid = ++os.nextpid; os.procs[pid].pid = pid; os.procs[pid].mm = os.kernel; os.populate(init, pid, true);
          for (u32 k = 0; k < n; k++) { os.tick(); os.action((int) sim.d((u32) os.run.size())); }
          os.finish(); std::stable_sort(os.st.begin(), os.st.end(), [](const SbStream &a, const SbStream &b) { return a.cfg.by_id.empty() > b.cfg.by_id.empty(); });
          std::vector<std::pair<u64, u64>> acc; Eff e; u64 last[5] = {0, 0, 0, 1, 0}; static const char *on[] = {"--pevent:sample-type", "--pevent:time-zero", "--pevent:time-shift", "--pevent:time-mult", "--pevent:tsc-offset"};
          for (auto &s : os.st) { u64 val[5] = {s.cfg.sample_type, s.cfg.zero, s.cfg.shift, s.cfg.mult, s.offset}; for (int k = 0; k < 5; k++) if (val[k] != last[k] || sim.d(4) == 0) { e.a.push_back(on[k]); e.a.push_back(num(val[k])); last[k] = val[k]; }
              for (auto &i : s.cfg.by_id) { e.a.push_back("--pevent:sample-config"); e.a.push_back(num(i.first) + ":" + num(i.second)); acc.push_back(i); } s.cfg.by_id = acc;
              if (sim.d(4) == 0) { static const char *ig[] = {"--pevent:sysroot", "--pevent:kcore", "--pevent:vdso-x64", "--pevent:vdso-x32", "--pevent:vdso-ia32"}; e.a.push_back(ig[sim.d(5)]); e.a.push_back("/sim/none"); } if (sim.d(4) == 0) { e.a.push_back("--pevent:kernel-start"); e.a.push_back(num(SbOs::kimg)); }
              static const char *pn[] = {"--pevent:primary", "--pevent", "--pevent:secondary"}; e.a.push_back(pn[s.primary ? sim.d(2) : 2]); std::string fn = s.file; if (s.begin || s.end || sim.d(4) == 0) { fn += ":" + num(s.begin); if (s.end) fn += "-" + num(s.end); } e.a.push_back(fn); }
          e.f = [&] { o.track = true; }; es.push_back(e);
          if (sim.p(3, 4)) { bool t = sim.d(2); Args a{sim.d(2) ? "--sb:compact" : "--sb", "--sb:filename", "--sb:offset"}; if (t) a.push_back("--sb:time"); for (size_t k = a.size(); k > 1; k--) std::swap(a[k - 1], a[sim.d((u32) k)]); if (sim.d(8) == 0) a.push_back("--sb:warn"); es.push_back({a, [&sbf, t] { sbf |= ptsbp_compact | ptsbp_filename | ptsbp_file_offset | (t ? (u32) ptsbp_tsc : 0u); }}); }
      }
      for (size_t k = es.size(); k > 1; k--) std::swap(es[k - 1], es[sim.d((u32) k)]);
      u32 wrong = sim.p(1, 10) ? 1 + sim.d(8) : 0; std::vector<std::string> args{"ptdump"}; size_t at = sim.d((u32) es.size() + 1);
      for (size_t k = 0; k <= es.size(); k++) {
          if (k == at && wrong == 1) { args.push_back("--no-such-option"); bad = true; } else if (k == at && wrong == 2) { static const char *n[] = {"--mtc-freq", "--nom-freq", "--cpuid-0x15.eax", "--cpuid-0x15.ebx", "--pevent:time-shift", "--pevent:sample-type", "--pevent:time-mult", "--pevent:sample-config", "--cpu"}; args.push_back(n[sim.d(9)]); args.push_back(badnum()); bad = true; if (args[args.size() - 2] == "--cpu" && args.back() == "0x") args.back() = "y"; }
          else if (k == at && wrong == 3) { args.push_back("--mtc-freq"); args.push_back("256"); bad = true; } else if (k == at && wrong == 4) { args.push_back("--pevent:sample-config"); args.push_back(sim.d(2) ? "5" : "5:6x"); bad = true; } else if (k == at && wrong == 5) { args.push_back("--time"); args.push_back("--tcal"); bad = true; } else if (k == at && wrong == 6) { args.push_back("--pevent"); args.push_back("/sim/missing"); bad = true; }
          if (k == es.size()) break; args.insert(args.end(), es[k].a.begin(), es[k].a.end()); es[k].f(); }
      std::string file = name; size_t begin = 0, end = d.size(); bool miss = wrong == 7;
      if (name != "/sim/trace" && name != "/sim/tr:ace") { } if (sim.p(1, 4) || name == "/sim/1:2x") { begin = sim.d(4) ? sim.d((u32) d.size() + 1) : 0; if (sim.p(1, 20)) begin = d.size() + sim.d(3); file += ":" + num(begin); if (sim.d(2)) { end = begin + 1 + sim.d((u32)(d.size() > begin ? d.size() - begin : 1)); if (sim.p(1, 20)) end += d.size(); if (sim.p(1, 20)) end = begin - (begin ? sim.d((u32) begin) : 0); file += "-" + num(end); if (end <= begin) bad = true; } }
      if (begin >= d.size() || end > d.size() || (file != name && end <= begin)) bad = true;
      if (miss) bad = true; else seam.put(name, d, 1000);
      if (wrong == 8) { bad = true; if (sim.d(2)) args.push_back(file), args.push_back("more"); } else args.push_back(file);      // no file, or too many
      // ---- run it
      bool cap = false; if (sim.p(1, 3)) { static const int fk[] = {F_ALLOC, F_OPEN, F_READ_ERR, F_READ_EOF, F_SEEK}; int k = fk[sim.d(5)]; if (sim.d(2)) seam.arm_at((Fault) k, 1 + sim.d(sb ? 14 : 3)); else seam.enable((Fault) k, 2 + sim.d(20)); cap = true; } (void) cap;
      std::vector<std::vector<char>> av; std::vector<char *> argv; std::string cl; for (auto &a : args) { av.emplace_back(a.begin(), a.end()); av.back().push_back(0); cl += (cl.empty() ? "" : " ") + a; } for (auto &a : av) argv.push_back(a.data()); argv.push_back(nullptr); LOG("%s   (trace of %zu bytes%s)\n", cl.c_str(), d.size(), bad ? ", to be refused" : "");
      struct Out { char *m[2] = {}; size_t n[2] = {}; FILE *f[2]; Out() { for (int k = 0; k < 2; k++) f[k] = open_memstream(&m[k], &n[k]); } ~Out() { for (int k = 0; k < 2; k++) { if (f[k]) fclose(f[k]); free(m[k]); } } void done() { for (int k = 0; k < 2; k++) { fclose(f[k]); f[k] = nullptr; } } } out; ptdump_stdout = out.f[0]; ptdump_stderr = out.f[1];
      u64 fired = seam.fired; int rc = LIB(ptdump_main((int) args.size(), argv.data())); seam.disable_all(); bool hit = seam.fired != fired; out.done(); std::string text(out.m[0], out.n[0]), err(out.m[1], out.n[1]); sim.h((u64) rc); if (sim.verbose) LOG("exit %d%s\n%s%s", rc, hit ? " (fault)" : "", text.c_str(), err.c_str());
      sim.count(rc ? "exit.failure" : "exit.success"); if (hit) sim.count(rc ? "fault-reported" : "fault-harmless");
      if (bad && !rc) sim.fail("accepted", "exit 0 for: %s", cl.c_str());
      if (!bad && rc && !hit) sim.fail("refused", "exit %d (%s) for: %s", rc, err.c_str(), cl.c_str());
      if (rc && err.empty() && text.find('[') == std::string::npos) sim.fail("silent", "exit %d without a message", rc);
      // ---- compare
      std::vector<std::string> lines; for (size_t p = 0; p < text.size();) { size_t q = text.find('\n', p); if (q == std::string::npos) sim.fail("output", "the last line is incomplete"); lines.push_back(text.substr(p, q - p)); p = q + 1; }
      auto release = [&] { if (!seam.live.empty()) { bool sc = false; for (auto &a : args) sc |= a == "--pevent:sample-config"; if (sc && seam.live.size() == 1) { void *p = seam.live.begin()->first; seam.live.clear(); free(p); } } seam.check_released("ptdump returned"); };
      if (rc) { if (!hit || bad) for (auto &l : lines) if (!l.empty() && l[0] != '[') sim.fail("output", "exit %d and prints '%s'", rc, l.c_str()); release(); sim.nontrivial = hit; return; }
      if (cf.cpu.vendor) (void) pt_cpu_errata(&cf.errata, &cf.cpu);
      std::vector<u8> part(d.begin() + (long) begin, d.begin() + (long) end); cf.begin = part.data(); cf.end = part.data() + part.size(); Listing L(o, cf); L.make(); size_t n = 0;
      SbLines *sl = sb ? sb_lines(os, sbf) : nullptr; struct SF { SbLines *s; ~SF() { if (s) sb_lines_free(s); } } sf{sl}; u64 sbn = 0;
      auto sbline = [&](const std::string &l) { return l.compare(0, 9, "/sim/perf") == 0; };
      auto sbtime = [&](u64 t) { if (!sl || !sbf) return; for (;;) { size_t k = n; while (k < lines.size() && !lines[k].empty() && lines[k][0] == '[') k++; if (k >= lines.size() || !sbline(lines[k]) || !sb_lines_line(sl, lines[k], t)) break; sbn++; n = k + 1; } sb_lines_time(sl, t); };
      for (auto &s : L.steps) switch (s.k) {
      case Step::SB: sbtime(s.v); break;
      case Step::LINE: while (n < lines.size() && !lines[n].empty() && lines[n][0] == '[') n++;
          if (n >= lines.size()) sim.fail("missing", "the listing ends before '%s'", s.s.c_str()); if (squeeze(lines[n]) != s.s) sim.fail("listing", "printed '%s', expected '%s'", squeeze(lines[n]).c_str(), s.s.c_str()); n++; break;
      case Step::ERR: { std::string p = fm("[%llx:", X(s.v)); for (;; n++) { if (n >= lines.size() || lines[n].empty() || lines[n][0] != '[') sim.fail("missing", "the error at %llx is not reported", X(s.v)); if (!lines[n].compare(0, p.size(), p)) break; } n++; } break;
      }
      sbtime(~0ull); while (n < lines.size() && !lines[n].empty() && lines[n][0] == '[') n++; if (n < lines.size()) sim.fail("listing", "extra line '%s'", lines[n].c_str());
      if (sl && sbf) sim.count("sideband-lines", sbn); sim.count("packets-listed", L.packets); sim.count("errors-listed", L.errors); sim.nontrivial = L.packets > 5; sim.simtime = m.clk; release();
    }
}
SCENARIO("C27", c27, "the dump tool");
