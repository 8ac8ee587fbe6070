// Memory layout and contents policy (variant "plain").
#pragma once
#include <cstdint>
namespace sim {
struct MemPolicy {
  bool on = false;
  uint64_t seed = 0;
  unsigned order = 0;   // fresh blocks of one size: ascending, descending, shuffled
  bool gaps = false;    // random distance between batches
  bool reuse = false;   // random choice among recycled blocks instead of last-in first-out
  unsigned fresh = 3;   // contents of new blocks: 0 zeros, 1 ones, 2 random, 3 stale, 4 small integers, 5 doubles, 6 0x01 bytes
  unsigned freed = 3;   // contents written into released blocks
};
struct MemStats { uint64_t allocs = 0; };
void mem_policy(const MemPolicy& p);
MemStats mem_stats();
void scribble_stack(unsigned how);  // overwrites the unused stack below the caller
}  // namespace sim
