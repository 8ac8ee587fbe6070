// Simulated operating system surface: in-memory disk, heap, clocks.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "sim.h"

namespace sim {

// ------------------------------------------------------------------ disk
// All paths starting with "/simfs/" live on an in-memory disk.
struct Disk {
  struct Counts { uint64_t opens, reads, writes, closes, short_r, short_w, eintr, eio_r, eio_w, enospc, open_fail, close_fail, bytes_w; };
  // fault plan (set by plan_* or directly)
  uint32_t short_permille = 0, eintr_permille = 0;
  int64_t eio_read_at = -1;    // reading at/after this offset fails with EIO
  int64_t space = -1;          // bytes that can still be written before ENOSPC
  int64_t eio_write_at = -1;   // write number (0-based) that fails with EIO
  uint32_t write_fail_len = 0; // 0: failing writes keep failing; n>0: only n consecutive writes fail
  int open_fail = -1;          // open number (0-based) that fails
  int open_errno = 0;
  int close_fail = -1;         // close number that fails (tail of the data lost)
  // observation
  Counts n{};
  bool write_error_injected = false;  // some write/close/open really failed
  bool read_error_injected = false;
};
Disk& disk();
void disk_reset();
void disk_put(const std::string& path, const std::string& bytes);
bool disk_get(const std::string& path, std::string* bytes);
bool disk_exists(const std::string& path);
void disk_remove(const std::string& path);
std::vector<std::string> disk_list();

// Draws a read/write fault plan from the fault stream.
void plan_benign_io();                 // short transfers and interruptions only
void plan_read_error(int64_t size);    // + EIO at some offset / open failure
void plan_write_error(int64_t size_hint);  // + one failing write/space limit/open/close

// ------------------------------------------------------------------ heap
// RAII: simulator-internal code; no faults, no tracking.
struct Quiet { Quiet(); ~Quiet(); };
struct Heap {
  uint64_t live_blocks = 0, live_bytes = 0;
  uint64_t total = 0;        // allocations made while tracking
  uint64_t failed = 0;       // injected failures
};
Heap heap();
void heap_track(bool on);
// arm: the k-th (0-based) allocation from now fails, and `count` in total
// consecutive ones (count = 0: all from then on) until heap_disarm().
void heap_arm(uint64_t k, uint64_t count);
uint64_t heap_disarm();                  // returns number of injected failures
uint64_t heap_seq();                     // allocations so far (tracked or not)

// ------------------------------------------------------------------ clocks
struct Clocks {
  bool on = false;
  int64_t mono_ns = 0;      // CLOCK_MONOTONIC & friends
  int64_t real_ns = 0;      // CLOCK_REALTIME
  int64_t user_ticks = 0, sys_ticks = 0, child_user = 0, child_sys = 0;
  long ticks_per_second = 100;
  bool times_fails = false;
  uint64_t reads = 0;
  int64_t step_ns = 0;      // monotonic/real advance per query (a running machine)
};
Clocks& clocks();

}  // namespace sim
