#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <errno.h>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include "os.h"

namespace sim {
static Clocks g;
Clocks& clocks() { return g; }
static void advance() { g.mono_ns += g.step_ns; g.real_ns += g.step_ns; g.reads++; }
}
using namespace sim;
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!clocks().on) return static_cast<int>(syscall(SYS_clock_gettime, c, t));
  Clocks& k = clocks();
  advance();
  int64_t ns;
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: ns = k.real_ns; break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: ns = (k.user_ticks + k.sys_ticks) * (1000000000LL / k.ticks_per_second); break;
    default: ns = k.mono_ns;
  }
  t->tv_sec = ns / 1000000000LL;
  t->tv_nsec = ns % 1000000000LL;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000LL; t->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  timespec t;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p) noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
clock_t times(struct tms* b) noexcept {
  if (!clocks().on) return static_cast<clock_t>(syscall(SYS_times, b));
  Clocks& k = clocks();
  advance();
  if (k.times_fails) { fault_hit("times-fails"); errno = EFAULT; return static_cast<clock_t>(-1); }
  b->tms_utime = k.user_ticks;
  b->tms_stime = k.sys_ticks;
  b->tms_cutime = k.child_user;
  b->tms_cstime = k.child_sys;
  return static_cast<clock_t>(k.mono_ns / (1000000000LL / k.ticks_per_second));
}
clock_t clock(void) noexcept {
  if (!clocks().on) { timespec t; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
  Clocks& k = clocks();
  advance();
  return (k.user_ticks + k.sys_ticks) * (1000000L / k.ticks_per_second);
}
int getrusage(__rusage_who_t who, struct rusage* r) noexcept {
  int rc = static_cast<int>(syscall(SYS_getrusage, who, r));
  if (clocks().on && !rc) {
    Clocks& k = clocks();
    long us = 1000000L / k.ticks_per_second;
    r->ru_utime.tv_sec = k.user_ticks * us / 1000000; r->ru_utime.tv_usec = k.user_ticks * us % 1000000;
    r->ru_stime.tv_sec = k.sys_ticks * us / 1000000; r->ru_stime.tv_usec = k.sys_ticks * us % 1000000;
  }
  return rc;
}
long sysconf(int name) noexcept {
  static long (*r)(int) = reinterpret_cast<long (*)(int)>(dlsym(RTLD_NEXT, "sysconf"));
  if (name == _SC_CLK_TCK && clocks().on) return clocks().ticks_per_second;
  return r(name);
}
}
