// Drives the real decoders over a simulated trace and compares with the truth.
#pragma once
#include "machine.h"

struct Piece { u64 va, size; int isid; int proc; bool cb; u64 vmcs = 0; };
struct FlowRun;
// Code as the decoders see it: simulated files, sections (possibly split inside instructions), overlays, callback.
struct Code {
    Machine &m; pt_image *img = nullptr; pt_image_section_cache *isc = nullptr; std::vector<Piece> pieces; bool strict_cb = true; u64 cbreads = 0; int gone = -1;
    // Faults of the memory callback: addresses it cannot read, one call that fails, reads that come up short.
    u64 cb_lo = 0, cb_hi = 0, cb_nth = 0, cb_short = 0, cb_ip = 0; int cb_err = 0; bool cb_track = false, cb_failed = false; bool mem = false; u64 mem_mark = 0; FlowRun *cur = nullptr;
    u64 cb_max(u64 ip) const; u64 readable(int proc, u64 ip) const; bool available(int proc, u64 ip, u8 size) const;
    struct Opt { bool split = true, cached = true, overlay = true, callback = true, vmcs = false, asids = false; } o;      // vmcs: sections of their own for each virtual machine; asids: of any size the user may know
    Code(Machine &m_) : m(m_) {}
    ~Code();
    void files();
    void make(); void make(Opt opt) { o = opt; make(); }
    void add(pt_image *im, const Module &mod, u64 off, u64 size, bool cached, u64 vmcs = 0);
    void fill(pt_image *im);
    int isid_at(int proc, u64 ip, u64 vmcs) const; bool truncated(int proc, u64 ip, u8 size) const; const Piece *at(int proc, u64 ip) const;
    static int cb(uint8_t *buf, size_t size, const pt_asid *asid, uint64_t ip, void *ctx);
};
pt_asid asid_of(const Machine &m, const Module &mod);

struct FlowRun; struct TimeObs;
struct RunOpt { u64 begin = 0, end = ~0ull; int sync = 0; const std::vector<u8> *data = nullptr; const CutPt *cp = nullptr; bool cp_exact = true; size_t cp_xmax = 0; bool tick = false, time = false; bool end_on_call = false, end_on_jump = false; const char *tag = ""; bool skip_time = true; struct TimeObs *tobs = nullptr; bool keep_tcal = false, nonom = false, nocpuid = false; int (*decode)(pt_packet_unknown *, const pt_config *, const uint8_t *, void *) = nullptr; void *decode_ctx = nullptr; };
struct TimeObs { virtual void on(const pt_event &e, size_t evi, size_t xi) = 0; virtual void after(FlowRun &r) = 0; virtual ~TimeObs() {} };

struct FlowRun {               // common cursor over the truth
    Machine &m; Code &code; RunOpt o; size_t xi = 0, evi = 0, start_xi = 0; bool tailed = false; bool done = false; int err = 0; int status = 0;
    std::vector<u8> buf; u64 n_insn = 0, n_ev = 0, n_free = 0; bool wild = false, loose = false; bool free_tail() const { return (loose && xi >= must()) || (o.cp && o.cp->loose && xi >= must() && evi >= std::min(o.cp->ev, m.t.ev.size())); } u64 exp_ip = 0; int exp_proc = 0;
    u64 res_ip = 0; bool res_known = false; void tick_near(u64 ip); void resume(const pt_event &e); u64 last_tsc = 0; bool have_tsc = false; bool last_async_dis = false; u64 async_at = 0; u64 first_off = 0;
    FlowRun(Machine &m_, Code &c_, RunOpt o_); virtual ~FlowRun() {} virtual bool step() = 0; bool started = false;
    void on_event(const pt_event &e);
    void asid_is(const pt_asid &a); bool one_insn(u64 ip, int size, const u8 *raw, int mode, int iclass, int isid, bool spec, int trunc, bool last_optional);
    void finish(int e); void follow(const SInsn *i);
    size_t must() const { return o.cp ? o.cp->anchor : m.t.tail_open ? m.t.x.size() - 1 : m.t.x.size(); }
    void resync(int k, int st);      // decode (re)starts at synchronisation point k
};
struct InsnRun : FlowRun { pt_insn_decoder *d = nullptr; InsnRun(Machine &m, Code &c, RunOpt o, pt_image *img = nullptr); ~InsnRun(); bool step() override; void start(); };
struct BlockRun : FlowRun { pt_block_decoder *d = nullptr; BlockRun(Machine &m, Code &c, RunOpt o, pt_image *img = nullptr); ~BlockRun(); bool step() override; void start(); };

void check_insn(Machine &m, Code &c, RunOpt o = RunOpt());
void check_block(Machine &m, Code &c, RunOpt o = RunOpt());
void run_evt(Machine &m, RunOpt o, pt_event_decoder *d); void run_qry(Machine &m, RunOpt o, pt_query_decoder *d, int st, u64 ip);
int find_sync(const Machine &m, u64 off);
void check_evt(Machine &m, RunOpt o = RunOpt());
void check_qry(Machine &m, RunOpt o = RunOpt());
pt_config mkconfig(const Machine &m, std::vector<u8> &buf, const RunOpt &o);
const char *errname(int e);
