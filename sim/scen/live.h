// Code that changes while it is being decoded.
#pragma once
#include "decode.h"
#include <deque>
#include <set>
#include <functional>

struct Live {
    Machine &m; Code &c; std::deque<std::vector<SInsn>> old; std::map<int, std::vector<std::string>> used; u32 ver = 0; FlowRun *run = nullptr;
    std::vector<pt_image *> spare; std::function<int(pt_image *)> set_image; std::function<pt_image *()> get_image; pt_image *deflt = nullptr; u32 nops = 0;
    Live(Machine &m_, Code &c_) : m(m_), c(c_) { for (size_t i = 0; i < m.prog.mods.size(); i++) used[(int) i] = {m.prog.mods[i].file}; }
    ~Live();
    bool mutate(int mi, size_t cur, u64 exp_ip, u64 *lo, u64 *hi);      // changes the code of a module without changing what it does; false if nothing changed
    void carve(u64 va, u64 size, int proc);
    void newfile(int mi); void remove_all(int mi); void add_split(int mi);
    void op(size_t cur, u64 exp_ip, bool running);
};
