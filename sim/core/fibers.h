// Simulated threads: fibers under a seeded scheduler that may switch at every shared memory access, atomic and lock operation.
#pragma once
#include "seam.h"
#include <functional>
void par_run(const std::vector<std::function<void()>> &fns, u64 max_steps);     // returns when all are done; throws the first violation
int par_self();                                                                   // 1.. inside a fiber, 0 outside
void par_point(const char *what);                                                 // a place where the harness lets others run
u64 par_now();                                                                    // a counter of scheduling points, for histories
