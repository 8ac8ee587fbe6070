// Simulated threads: real threads of which exactly one runs at a time; the
// scheduler decides at memory accesses and synchronisation operations who runs
// next.  Accesses of instrumented code are checked for happens-before races.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>

namespace thr {
// Runs the bodies as simulated threads until all have finished.
void parallel(const std::vector<std::function<void()>>& bodies);
struct Stats { uint64_t accesses = 0, sync_ops = 0, switches = 0, atomics = 0, guards = 0, contended = 0; uint64_t order_hash = 0; };
Stats stats();
int self();                // 0 outside, 1.. inside a body
void point();              // explicit scheduling point
struct Ignore { Ignore(); ~Ignore(); };  // harness-internal code: not checked, not preempted
}  // namespace thr
