#include "image_world.h"
#include <set>
// ---------------------------------------------------------------- image against model
static void c13()
{
    seam.reset();
    { World w; u32 n = 4 + sim.d(40);
      while (n--) {
          World::Op o = w.gen(); LOG("%s", w.str(o).c_str()); int ex = w.expect(o), r = w.run(o); sim.h((u64)(s64) r); LOG("  %s %d", errname(r), r); sim.count(ex < 0 ? "ops-refused" : "ops");
          if (ex < 0) { if (r >= 0) sim.fail("accepted", "%s accepted, returns %d", w.str(o).c_str(), r); }
          else { if (r < 0) sim.fail("refused", "%s: %s", w.str(o).c_str(), errname(r)); w.model(o, r); }
          w.check_some("after operation");
      }
      w.check_all("at the end"); sim.nontrivial = w.mod[0].e.size() > 1; w.release(); }
    seam.check_released("end of run");
}
SCENARIO("C13", c13, "image contents against a reference model");

// ---------------------------------------------------------------- failing operations
static void arm_one(bool files)
{
    static const Fault fs[] = {F_STAT, F_OPEN, F_FSTAT, F_MMAP, F_MTXINIT};
    if (files && sim.d(2)) seam.arm_at(fs[sim.d(5)], 1 + sim.d(3)); else seam.arm_at(F_ALLOC, 1 + sim.d(8));
}
static void c14()
{
    seam.reset();
    { World w; u32 n = 4 + sim.d(24);
      while (n--) {
          World::Op o = w.gen(); if (!o.size) o.size = 1; bool arm = sim.p(1, 2); if (sim.p(1, 12)) o.bad = true;
          MImg before = w.mod[o.i]; LOG("%s%s%s", w.str(o).c_str(), arm ? " with a fault" : "", o.bad ? " with a null argument" : "");
          int ex = w.expect(o); if (arm) arm_one(true); u64 f0 = seam.fired; int r = w.run(o); seam.disable_all(); bool hit = seam.fired != f0; sim.h((u64)(s64) r); LOG("  %s %d%s", errname(r), r, hit ? " (fault hit)" : ""); if (hit) sim.count("ops-faulted");
          if (o.bad) { if (r >= 0) sim.fail("accepted", "null argument accepted"); }
          else if (ex < 0) { if (r >= 0) sim.fail("accepted", "%s accepted, returns %d", w.str(o).c_str(), r); }
          else if (o.k == 5 && r > 0) {        // some of the source was not copied
              if (!hit) sim.fail("refused", "copy ignored %d sections", r);
              auto &src = w.mod[o.j].e; bool ok = false; if (r != 1) sim.fail("copy-count", "copy ignored %d sections for one fault", r);
              for (size_t skip = 0; skip < src.size() && !ok; skip++) { MImg m = before; for (size_t k = 0; k < src.size(); k++) if (k != skip) World::add(m, src[k]); if (w.same(o.i, m)) { w.mod[o.i] = m; ok = true; } }
              if (!ok) sim.fail("copy-partial", "after a copy that ignored one section the image is no copy of the others"); sim.count("partial-copies");
              World::Op again = o; int r2 = w.run(again); if (r2) sim.fail("retry", "copy again: %d", r2); w.model(o, 0);
          } else if (r < 0) {
              if (!hit) sim.fail("refused", "%s: %s", w.str(o).c_str(), errname(r));
              sim.count("ops-failed"); w.check_all("after failing operation");
              int r2 = w.run(o); if (r2 < 0) sim.fail("retry", "%s fails again without a fault: %s", w.str(o).c_str(), errname(r2)); w.model(o, r2);
          } else w.model(o, r);
          if (o.bad || ex < 0) w.check_all("after refused operation"); else w.check_some("after operation");
      }
      w.check_all("at the end"); sim.nontrivial = seam.fired > 0; w.release(); }
    seam.check_released("end of run");
}
SCENARIO("C14", c14, "failing image and cache operations");

// ---------------------------------------------------------------- changing and failing files
static void c15()
{
    seam.reset();
    { World w; u32 n = 6 + sim.d(30); w.io_faults = true; std::set<int> cut; static const Fault fs[] = {F_OPEN, F_FSTAT, F_MMAP, F_FDOPEN, F_READ_ERR, F_READ_EOF, F_SEEK};
      bool nommap = sim.p(1, 3); if (nommap) sim.count("files-read-not-mapped");
      auto steady = [&]() { seam.disable_all(); if (nommap) { seam.on[F_MMAP] = true; seam.rate[F_MMAP] = 1; seam.left[F_MMAP] = 1; } };
      while (n--) {
          World::Op o; int ev = (int) sim.d(8); steady();
          if (ev == 0) {   // the file changes underneath
              int f = (int) sim.d(w.nfiles); auto it = seam.files.find(w.fname(f)); InodeP ino = it == seam.files.end() ? nullptr : it->second; bool used = false; for (auto &m : seam.maps) used |= m.second.ino == ino; for (auto &m : seam.fds) used |= m.second.ino == ino;
              switch (sim.d(5)) { case 0: seam.unlink(w.fname(f)); LOG("file %d removed", f); sim.count("fault.file-removed"); break;
              case 1: if (ino && !used) { std::vector<u8> d = ino->data; for (auto &b : d) b = 0x90 + (b & 7); u64 mt = w.tick(); seam.overwrite(w.fname(f), 0, d, mt); LOG("file %d overwritten", f); sim.count("fault.file-overwritten"); } break;
              case 2: if (ino && !used) { ino->data.resize(sim.d((u32) ino->data.size() + 1)); if (sim.p(2, 3)) { ino->mtime = w.tick(); cut.erase(f); } else cut.insert(f); LOG("file %d truncated", f); sim.count("fault.file-truncated"); } break;
              case 3: w.write_file(f, ino && sim.d(2) ? ino->data.size() : 1 + sim.d(200)); LOG("file %d replaced", f); sim.count("fault.file-replaced"); break;
              default: if (ino && !used) { ino->data.push_back(0x90); if (sim.p(2, 3) || cut.erase(f)) ino->mtime = w.tick(); LOG("file %d extended", f); sim.count("fault.file-extended"); } break; }
          } else if (ev < 4) {
              do o = w.gen(); while (o.k == 3 || o.k == 4); LOG("%s", w.str(o).c_str()); int ex = w.expect(o), r = w.run(o); sim.h((u64)(s64) r); LOG("  %s %d", errname(r), r);
              if (ex < 0) { if (r >= 0) sim.fail("accepted", "%s accepted, returns %d", w.str(o).c_str(), r); } else { if (r < 0) sim.fail("refused", "%s: %s", w.str(o).c_str(), errname(r)); w.model(o, r); }
          }
          // read, possibly with faults
          if (sim.d(3)) for (int k = 0; k < 2; k++) { Fault f = fs[sim.d(7)]; if (f == F_READ_ERR || f == F_READ_EOF || f == F_SEEK) { seam.on[F_MMAP] = true; seam.rate[F_MMAP] = 1; seam.left[F_MMAP] = 1; } if (sim.d(2)) seam.arm_at(f, 1 + sim.d(4)); else seam.enable(f, 1 + sim.d(6)); }
          w.check_some("reading"); if (!sim.d(4)) w.check_some("reading");
          steady();
      }
      steady(); w.check_all("at the end"); sim.nontrivial = sim.hash != 0; w.release(); }
    seam.check_released("end of run");
}
SCENARIO("C15", c15, "changing and failing files");
