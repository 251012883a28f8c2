// The packet encoder against a reference encoder and the packet decoder, in buffers of every size.
#include "machine.h"
#include <algorithm>
#define X(v) ((unsigned long long)(v))
const char *errname(int e);

enum { OK = 0, REJ = 1, EITHER = 2 };      // must be accepted, must be rejected, may be rejected (value does not fit its field)
struct Ref { std::vector<u8> b; int v = OK; pt_packet want; };
static void le(std::vector<u8> &b, u64 v, int n) { for (int k = 0; k < n; k++) b.push_back((u8)(v >> (8 * k))); }
static u64 low(u64 v, int bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static u64 val(int bits) { switch (sim.d(6)) { case 0: return 0; case 1: return low(~0ull, bits); case 2: return 1ull << sim.d((u32) bits); case 3: return (1ull << sim.d((u32) bits)) - 1; default: return sim.dbits((u32) bits); } }
static u64 wide(int bits) { return sim.p(1, 8) ? val(64) : val(bits); }      // sometimes more than fits

static pt_packet gen_packet()
{
    pt_packet p; memset(&p, (int) sim.d(2) ? 0xa5 : 0, sizeof p); p.size = (u8) sim.d(256);
    static const int types[] = { ppt_pad, ppt_psb, ppt_psbend, ppt_fup, ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_tnt_8, ppt_tnt_64, ppt_mode, ppt_pip, ppt_vmcs, ppt_cbr, ppt_tsc, ppt_tma, ppt_mtc, ppt_cyc, ppt_stop, ppt_ovf, ppt_mnt, ppt_exstop, ppt_mwait, ppt_pwre, ppt_pwrx, ppt_ptw, ppt_cfe, ppt_evd, ppt_trig };
    p.type = (pt_packet_type) types[sim.d(sizeof types / sizeof *types)];
    if (sim.p(1, 60)) p.type = (pt_packet_type) (sim.d(2) ? sim.d(2) ? ppt_unknown : ppt_invalid : 100 + sim.d(1000));
    auto &y = p.payload;
    switch ((int) p.type) {
    case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: { static const int c[] = {0, 1, 2, 3, 4, 6}; y.ip.ipc = (pt_ip_compression) (sim.p(1, 12) ? 5 + 2 * sim.d(60) : c[sim.d(6)]); y.ip.ip = val(64); } break;
    case ppt_tnt_8: y.tnt.bit_size = (u8) (sim.p(1, 12) ? sim.d(256) : 1 + sim.d(6)); y.tnt.payload = sim.p(1, 8) ? val(64) : low(val(64), y.tnt.bit_size); break;
    case ppt_tnt_64: y.tnt.bit_size = (u8) (sim.p(1, 12) ? sim.d(256) : 1 + sim.d(47)); y.tnt.payload = sim.p(1, 8) ? val(64) : low(val(64), y.tnt.bit_size); break;
    case ppt_mode: if (sim.p(1, 10)) y.mode.leaf = (pt_mode_leaf) (sim.d(2) ? sim.d(256) : sim.d(8) << 5); else y.mode.leaf = sim.d(2) ? pt_mol_exec : pt_mol_tsx;
        if (y.mode.leaf == pt_mol_tsx) { y.mode.bits.tsx.intx = sim.d(2); y.mode.bits.tsx.abrt = sim.d(2); } else { y.mode.bits.exec.csl = sim.d(2); y.mode.bits.exec.csd = sim.d(2); y.mode.bits.exec.iflag = sim.d(2); } break;
    case ppt_pip: y.pip.cr3 = wide(52); if (sim.p(7, 8)) y.pip.cr3 &= ~31ull; y.pip.nr = sim.d(2); break;
    case ppt_vmcs: y.vmcs.base = wide(52); if (sim.p(7, 8)) y.vmcs.base &= ~0xfffull; break;
    case ppt_cbr: y.cbr.ratio = (u8) val(8); break;
    case ppt_tsc: y.tsc.tsc = wide(56); break;
    case ppt_tma: y.tma.ctc = (u16) val(16); y.tma.fc = (u16) (sim.p(1, 8) ? val(16) : val(9)); break;
    case ppt_mtc: y.mtc.ctc = (u8) val(8); break;
    case ppt_cyc: y.cyc.value = sim.p(1, 8) ? val(64) : val(sim.p(1, 2) ? 14 : 61); break;
    case ppt_mnt: y.mnt.payload = val(64); break;
    case ppt_exstop: y.exstop.ip = sim.d(2); break;
    case ppt_mwait: y.mwait.hints = (u32) val(32); y.mwait.ext = (u32) val(32); break;
    case ppt_pwre: y.pwre.state = (u8) (sim.p(1, 8) ? val(8) : val(4)); y.pwre.sub_state = (u8) (sim.p(1, 8) ? val(8) : val(4)); y.pwre.hw = sim.d(2); break;
    case ppt_pwrx: y.pwrx.last = (u8) (sim.p(1, 8) ? val(8) : val(4)); y.pwrx.deepest = (u8) (sim.p(1, 8) ? val(8) : val(4)); y.pwrx.interrupt = sim.d(2); y.pwrx.store = sim.d(2); y.pwrx.autonomous = sim.d(2); break;
    case ppt_ptw: y.ptw.plc = (u8) (sim.p(1, 10) ? sim.d(256) : sim.d(2)); y.ptw.payload = y.ptw.plc ? val(64) : wide(32); y.ptw.ip = sim.d(2); break;
    case ppt_cfe: y.cfe.type = (pt_cfe_type) (sim.p(1, 10) ? sim.d(1u << 16) : sim.d(32)); y.cfe.vector = (u8) val(8); y.cfe.ip = sim.d(2); break;
    case ppt_evd: y.evd.type = (pt_evd_type) (sim.p(1, 10) ? sim.d(1u << 16) : sim.d(32)); y.evd.payload = val(64); break;
    case ppt_trig: y.trig.trbv = (u8) val(8); y.trig.icntv = sim.d(2); y.trig.icnt = (u16) val(16); y.trig.ip = sim.d(2); y.trig.mult = sim.d(2); break;
    }
    return p;
}
// What the hardware would write (Intel SDM, chapter Intel PT), and what must be read back.
static Ref ref(const pt_packet &p)
{
    Ref r; r.want = p; auto &b = r.b; auto &y = p.payload; auto &w = r.want.payload;
    switch ((int) p.type) {
    case ppt_pad: b = {0}; break;
    case ppt_psb: for (int k = 0; k < 8; k++) { b.push_back(2); b.push_back(0x82); } break;
    case ppt_psbend: b = {2, 0x23}; break;
    case ppt_stop: b = {2, 0x83}; break;
    case ppt_ovf: b = {2, 0xf3}; break;
    case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: {
        int n; switch ((int) y.ip.ipc) { case 0: n = 0; break; case 1: n = 2; break; case 2: n = 4; break; case 3: case 4: n = 6; break; case 6: n = 8; break; default: r.v = REJ; return r; }
        u8 op = p.type == ppt_fup ? 0x1d : p.type == ppt_tip ? 0x0d : p.type == ppt_tip_pge ? 0x11 : 0x01;
        b.push_back((u8)(op | (int) y.ip.ipc << 5)); le(b, y.ip.ip, n); w.ip.ip = low(y.ip.ip, 8 * n); } break;
    case ppt_tnt_8: if (y.tnt.bit_size < 1 || y.tnt.bit_size > 6) { r.v = REJ; return r; } if (low(y.tnt.payload, y.tnt.bit_size) != y.tnt.payload) r.v = EITHER;
        w.tnt.payload = low(y.tnt.payload, y.tnt.bit_size); b.push_back((u8)((w.tnt.payload | 1ull << y.tnt.bit_size) << 1)); break;
    case ppt_tnt_64: if (y.tnt.bit_size < 1 || y.tnt.bit_size > 47) { r.v = REJ; return r; } if (low(y.tnt.payload, y.tnt.bit_size) != y.tnt.payload) r.v = EITHER;
        w.tnt.payload = low(y.tnt.payload, y.tnt.bit_size); b = {2, 0xa3}; le(b, w.tnt.payload | 1ull << y.tnt.bit_size, 6); break;
    case ppt_mode: if (y.mode.leaf == pt_mol_exec) b = {0x99, (u8)(y.mode.bits.exec.csl | y.mode.bits.exec.csd << 1 | y.mode.bits.exec.iflag << 2)}; else if (y.mode.leaf == pt_mol_tsx) b = {0x99, (u8)(0x20 | y.mode.bits.tsx.intx | y.mode.bits.tsx.abrt << 1)}; else r.v = REJ; break;
    case ppt_pip: w.pip.cr3 = low(y.pip.cr3, 52) & ~31ull; if (w.pip.cr3 != y.pip.cr3) r.v = EITHER; b = {2, 0x43}; le(b, w.pip.cr3 >> 4 | y.pip.nr, 6); break;
    case ppt_vmcs: w.vmcs.base = low(y.vmcs.base, 52) & ~0xfffull; if (w.vmcs.base != y.vmcs.base) r.v = EITHER; b = {2, 0xc8}; le(b, w.vmcs.base >> 12, 5); break;
    case ppt_cbr: b = {2, 3, y.cbr.ratio, 0}; break;
    case ppt_tsc: w.tsc.tsc = low(y.tsc.tsc, 56); if (w.tsc.tsc != y.tsc.tsc) r.v = EITHER; b = {0x19}; le(b, w.tsc.tsc, 7); break;
    case ppt_tma: if (y.tma.fc > 0x1ff) { r.v = REJ; return r; } b = {2, 0x73}; le(b, y.tma.ctc, 2); b.push_back(0); le(b, y.tma.fc, 2); break;
    case ppt_mtc: b = {0x59, y.mtc.ctc}; break;
    case ppt_cyc: { u64 v = y.cyc.value; if (v >> 61) r.v = EITHER; u8 c = (u8)(v << 3 | 3); v >>= 5; if (v) c |= 4; b.push_back(c); while (v) { c = (u8)(v << 1); v >>= 7; if (v) c |= 1; b.push_back(c); } } break;
    case ppt_mnt: b = {2, 0xc3, 0x88}; le(b, y.mnt.payload, 8); break;
    case ppt_exstop: b = {2, (u8)(y.exstop.ip ? 0xe2 : 0x62)}; break;
    case ppt_mwait: b = {2, 0xc2}; le(b, y.mwait.hints, 4); le(b, y.mwait.ext, 4); break;
    case ppt_pwre: w.pwre.state &= 15; w.pwre.sub_state &= 15; if (y.pwre.state > 15 || y.pwre.sub_state > 15) r.v = EITHER; b = {2, 0x22, (u8)(y.pwre.hw ? 8 : 0), (u8)(w.pwre.state << 4 | w.pwre.sub_state)}; break;
    case ppt_pwrx: w.pwrx.last &= 15; w.pwrx.deepest &= 15; if (y.pwrx.last > 15 || y.pwrx.deepest > 15) r.v = EITHER; b = {2, 0xa2, (u8)(w.pwrx.last << 4 | w.pwrx.deepest), (u8)(y.pwrx.interrupt | y.pwrx.store << 2 | y.pwrx.autonomous << 3), 0, 0, 0}; break;
    case ppt_ptw: if (y.ptw.plc > 1) { r.v = REJ; return r; } w.ptw.payload = low(y.ptw.payload, y.ptw.plc ? 64 : 32); if (w.ptw.payload != y.ptw.payload) r.v = EITHER; b = {2, (u8)(0x12 | y.ptw.plc << 5 | y.ptw.ip << 7)}; le(b, y.ptw.payload, y.ptw.plc ? 8 : 4); break;
    case ppt_cfe: w.cfe.type = (pt_cfe_type) (y.cfe.type & 31); if ((int) y.cfe.type > 31) r.v = EITHER; b = {2, 0x13, (u8)(w.cfe.type | y.cfe.ip << 7), y.cfe.vector}; break;
    case ppt_evd: w.evd.type = (pt_evd_type) (y.evd.type & 31); if ((int) y.evd.type > 31) r.v = EITHER; b = {2, 0x53, (u8) w.evd.type}; le(b, y.evd.payload, 8); break;
    case ppt_trig: b = {0xd9, (u8)(y.trig.ip << 7 | y.trig.icntv << 6 | y.trig.mult << 5), y.trig.trbv}; if (y.trig.icntv) le(b, y.trig.icnt, 2); break;
    default: r.v = REJ;
    }
    return r;
}
static std::string str(const pt_packet &p) { Ref r = ref(p); char b[64]; snprintf(b, sizeof b, "packet type %d", (int) p.type); return std::string(b) + " [" + hexs(r.b.data(), r.b.size()) + "]"; }
bool same_packet(const pt_packet &a, const pt_packet &b)
{
    if (a.type != b.type) return false; auto &x = a.payload; auto &y = b.payload;
    switch ((int) a.type) {
    case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: return x.ip.ipc == y.ip.ipc && x.ip.ip == y.ip.ip;
    case ppt_tnt_8: case ppt_tnt_64: return x.tnt.bit_size == y.tnt.bit_size && x.tnt.payload == y.tnt.payload;
    case ppt_mode: if (x.mode.leaf != y.mode.leaf) return false; if (x.mode.leaf == pt_mol_tsx) return x.mode.bits.tsx.intx == y.mode.bits.tsx.intx && x.mode.bits.tsx.abrt == y.mode.bits.tsx.abrt; return x.mode.bits.exec.csl == y.mode.bits.exec.csl && x.mode.bits.exec.csd == y.mode.bits.exec.csd && x.mode.bits.exec.iflag == y.mode.bits.exec.iflag;
    case ppt_pip: return x.pip.cr3 == y.pip.cr3 && x.pip.nr == y.pip.nr;
    case ppt_vmcs: return x.vmcs.base == y.vmcs.base; case ppt_cbr: return x.cbr.ratio == y.cbr.ratio; case ppt_tsc: return x.tsc.tsc == y.tsc.tsc;
    case ppt_tma: return x.tma.ctc == y.tma.ctc && x.tma.fc == y.tma.fc; case ppt_mtc: return x.mtc.ctc == y.mtc.ctc; case ppt_cyc: return x.cyc.value == y.cyc.value;
    case ppt_mnt: return x.mnt.payload == y.mnt.payload; case ppt_exstop: return x.exstop.ip == y.exstop.ip; case ppt_mwait: return x.mwait.hints == y.mwait.hints && x.mwait.ext == y.mwait.ext;
    case ppt_pwre: return x.pwre.state == y.pwre.state && x.pwre.sub_state == y.pwre.sub_state && x.pwre.hw == y.pwre.hw;
    case ppt_pwrx: return x.pwrx.last == y.pwrx.last && x.pwrx.deepest == y.pwrx.deepest && x.pwrx.interrupt == y.pwrx.interrupt && x.pwrx.store == y.pwrx.store && x.pwrx.autonomous == y.pwrx.autonomous;
    case ppt_ptw: return x.ptw.plc == y.ptw.plc && x.ptw.payload == y.ptw.payload && x.ptw.ip == y.ptw.ip;
    case ppt_cfe: return x.cfe.type == y.cfe.type && x.cfe.vector == y.cfe.vector && x.cfe.ip == y.cfe.ip;
    case ppt_evd: return x.evd.type == y.evd.type && x.evd.payload == y.evd.payload;
    case ppt_trig: return x.trig.trbv == y.trig.trbv && x.trig.ip == y.trig.ip && x.trig.mult == y.trig.mult && x.trig.icntv == y.trig.icntv && (!x.trig.icntv || x.trig.icnt == y.trig.icnt);
    default: return true;
    }
}
static pt_config conf(u8 *b, size_t n) { pt_config c; memset(&c, 0, sizeof c); c.size = sizeof c; c.begin = b; c.end = b + n; return c; }

struct Item { u64 off; size_t n; pt_packet want; };
// Read a list of packets back from an exactly sized buffer.
static void readback(const std::vector<u8> &d, const std::vector<Item> &items, const char *how)
{
    u8 *b = (u8 *) malloc(d.size()); memcpy(b, d.data(), d.size()); struct G { u8 *b; ~G() { free(b); } } g{b};
    pt_config c = conf(b, d.size()); pt_packet_decoder *k = LIB(pt_pkt_alloc_decoder(&c)); if (!k) sim.fail("decoder-setup", "pt_pkt_alloc_decoder fails"); struct F { pt_packet_decoder *k; ~F() { LIB(pt_pkt_free_decoder(k)); } } f{k};
    int r = LIB(pt_pkt_sync_set(k, 0)); if (r < 0) sim.fail("round-trip", "%s: pt_pkt_sync_set: %s", how, errname(r));
    for (auto &i : items) {
        u64 o; r = pt_pkt_get_offset(k, &o); if (r < 0 || o != i.off) sim.fail("round-trip", "%s: reader at %llx, packet at %llx", how, X(o), X(i.off));
        size_t ps = sizeof(pt_packet) + (sim.p(1, 8) ? 16 : 0); u8 tmp[sizeof(pt_packet) + 16]; memset(tmp, 0x5a, sizeof tmp); pt_packet p;
        r = LIB(pt_pkt_next(k, (pt_packet *) tmp, ps)); memcpy(&p, tmp, sizeof p);
        if (r < 0) sim.fail("round-trip", "%s: reading %s at %llx: -pte_%s", how, str(i.want).c_str(), X(i.off), errname(r));
        if ((size_t) r != i.n || p.size != i.n) sim.fail("round-trip", "%s: %s at %llx is written with %zu bytes, read with %d (size %d)", how, str(i.want).c_str(), X(i.off), i.n, r, p.size);
        if (!same_packet(p, i.want)) sim.fail("round-trip", "%s: wrote %s at %llx, read %s", how, str(i.want).c_str(), X(i.off), str(p).c_str());
        sim.h(p.type);
    }
    pt_packet p; r = LIB(pt_pkt_next(k, &p, sizeof p)); if (r != -pte_eos) sim.fail("round-trip", "%s: at the end of the buffer: %s", how, errname(r));
}

static void c12()
{
    seam.reset();
    if (sim.p(1, 6)) {      // packets written by the simulated hardware: read, write again, same bytes
        Machine m; m.build(); auto &t = m.t.trace; std::vector<u8> in = t; pt_config c = conf(in.data(), in.size()); std::vector<u8> out(in.size(), 0x77); pt_config co = conf(out.data(), out.size());
        pt_packet_decoder *k = LIB(pt_pkt_alloc_decoder(&c)); pt_encoder *e = LIB(pt_alloc_encoder(&co)); if (!k || !e) sim.fail("decoder-setup", "out of memory"); struct F { pt_packet_decoder *k; pt_encoder *e; ~F() { LIB(pt_pkt_free_decoder(k)); LIB(pt_free_encoder(e)); } } f{k, e};
        int r = LIB(pt_pkt_sync_set(k, 0)); u64 n = 0;
        for (;;) {
            u64 o = 0; pt_pkt_get_offset(k, &o); pt_packet p; r = LIB(pt_pkt_next(k, &p, sizeof p)); if (r == -pte_eos && o == in.size()) break;
            if (r < 0) sim.fail("round-trip", "reading hardware packets at %llx: -pte_%s", X(o), errname(r));
            int w = LIB(pt_enc_next(e, &p)); if (w != r) sim.fail("round-trip", "%s read from %llx has %d bytes, writing it again gives %d", str(p).c_str(), X(o), r, w);
            if (memcmp(&in[o], &out[o], r)) sim.fail("round-trip", "%s read from %llx: bytes %s, written again %s", str(p).c_str(), X(o), hexs(&in[o], r).c_str(), hexs(&out[o], r).c_str());
            n++;
        }
        sim.count("hardware-packets", n); sim.nontrivial = n > 8;
    } else {
        size_t cap = 1 + sim.d(sim.d(2) ? 24 : 200); u8 *b = (u8 *) malloc(cap); struct G { u8 *b; ~G() { free(b); } } g{b}; std::vector<u8> shadow(cap); for (auto &x : shadow) x = (u8) sim.d(256); memcpy(b, shadow.data(), cap);
        pt_config c = conf(b, cap); pt_encoder *e = LIB(pt_alloc_encoder(&c)); if (!e) sim.fail("decoder-setup", "pt_alloc_encoder fails"); struct F { pt_encoder *e; ~F() { LIB(pt_free_encoder(e)); } } f{e};
        std::vector<Item> items; u64 pos = 0; u32 n = 4 + sim.d(60); u64 acc = 0, rej = 0;
        while (n--) {
            if (sim.p(1, 20)) {     // back to an earlier packet, or out of the buffer
                u64 to; size_t keep = items.size(); if (sim.d(2) && !items.empty()) { keep = sim.d((u32) items.size()); to = items[keep].off; } else to = sim.d(3) ? cap + 1 + sim.d(40) : sim.d64() | 1ull << 63;
                int r = LIB(pt_enc_sync_set(e, to)); LOG("sync_set %llx: %s", X(to), errname(r));
                if (to <= cap) { if (r < 0) sim.fail("encoder-position", "pt_enc_sync_set to %llx of %zx: %s", X(to), cap, errname(r)); pos = to; items.resize(keep); } else if (r >= 0) sim.fail("encoder-position", "pt_enc_sync_set to %llx of %zx accepted", X(to), cap);
            }
            pt_packet p = gen_packet(); Ref w = ref(p); size_t room = cap - pos;
            int r = LIB(pt_enc_next(e, &p)); sim.h((u64) r); LOG("%s with %zu bytes left: %d", str(p).c_str(), room, r);
            u64 o = ~0ull; int ro = pt_enc_get_offset(e, &o); if (ro < 0) sim.fail("encoder-position", "pt_enc_get_offset: %s", errname(ro));
            if (r < 0) {
                rej++; if (r < -pte_bad_cpu) sim.fail("error-code", "pt_enc_next returns %d", r);
                if (w.v == OK && w.b.size() <= room) sim.fail("encoder-reject", "%s rejected (%s) with %zu bytes left", str(p).c_str(), errname(r), room);
                if (w.v == OK && r != -pte_eos) sim.fail("encoder-reject", "%s with %zu bytes left: %s", str(p).c_str(), room, errname(r));
                if (w.b.size() > room) sim.count("fault.buffer-exhausted");
                if (o != pos) sim.fail("encoder-position", "%s rejected, position moves from %llx to %llx", str(p).c_str(), X(pos), X(o));
            } else {
                acc++; if (w.v == REJ && p.type == ppt_tnt_64 && !p.payload.tnt.bit_size) sim.fail("encoder-accept", "TNT-64 packet without branch outcomes accepted, cannot be read back"); if (w.v == REJ) sim.fail("encoder-accept", "%s accepted, cannot be expressed", str(p).c_str());
                if (w.b.size() > room) sim.fail("encoder-accept", "%s accepted with %zu bytes left", str(p).c_str(), room);
                if ((size_t) r != w.b.size() || o != pos + r) sim.fail("encoder-size", "%s: returns %d, position %llx to %llx", str(p).c_str(), r, X(pos), X(o));
                memcpy(&shadow[pos], w.b.data(), r); items.push_back({pos, (size_t) r, w.want}); pos = o;
            }
            if (memcmp(b, shadow.data(), cap)) { size_t k = 0; while (b[k] == shadow[k]) k++; sim.fail("encoder-bytes", "after %s at %llx (%s): byte %zx is %02x, must be %02x", str(p).c_str(), X(pos), errname(r), k, b[k], shadow[k]); }
        }
        if (pos) readback(std::vector<u8>(b, b + pos), items, "encoded packets");
        sim.count("packets-accepted", acc); sim.count("packets-rejected", rej); sim.nontrivial = acc > 3;
        if (!items.empty() && items.back().n > 1) {     // the last packet cut short is the end of the trace, not some other packet
            size_t cut = pos - 1 - sim.d((u32) items.back().n - 1); bool cyc = items.back().want.type == ppt_cyc; (void) cyc; items.pop_back();
            std::vector<u8> d(b, b + cut); if (!d.empty()) readback(d, items, "cut packets");
        }
    }
    seam.check_released("end of run");
}
SCENARIO("C12", c12, "packet encoder and decoder against a reference encoder");
