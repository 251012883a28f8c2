// Perf sideband records: a reference writer and reader, written from linux/perf_event.h.
#pragma once
#include "../core/sim.h"
#include "../core/seam.h"
extern "C" {
#include "intel-pt.h"
#include "libipt-sb.h"
#include "pevent.h"
}
struct PRec {
    u32 type = 0; u16 misc = 0; std::vector<u8> body; bool hasstr = false; std::string str;
    u64 st = 0; u32 pid = 0, tid = 0; u64 time = 0, id = 0, stream_id = 0; u32 cpu = 0; u64 identifier = 0;
};
size_t pfixed(u32 type);                   // bytes before the string; ~0 if the type is unknown
bool pstring(u32 type);
std::vector<u8> pbytes(const PRec &r);     // as the kernel writes it
struct PCfg { u64 sample_type = 0; std::vector<std::pair<u64, u64>> by_id; u16 shift = 0; u32 mult = 1; u64 zero = 0; };     // identifier, sample type
int pparse(const std::vector<u8> &b, size_t at, const PCfg &c, PRec &r, size_t &size, u64 &tsc);      // 0, 1 unknown type, or negative: not a record
u64 ptsc(const PCfg &c, u64 time), ptime(const PCfg &c, u64 tsc);
struct PevCfg { pev_config c; std::vector<u8> sc; PevCfg(const PCfg &p, bool old = false); };
