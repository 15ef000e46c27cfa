// A clock under the harness's control: every way of asking for the time answers from here while it is armed.
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cstdint>
#include <cstdlib>
static bool clk_armed{false};
static long long clk_wall_s{0};   // seconds since 1970
static long long clk_mono_ns{0};  // steady clock
static long long clk_reads{0};    // how often the steady clock was asked
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!clk_armed) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) { t->tv_sec = clk_wall_s; t->tv_nsec = 0; }
  else { ++clk_reads; t->tv_sec = clk_mono_ns / 1000000000; t->tv_nsec = clk_mono_ns % 1000000000; }
  return 0;
}
time_t time(time_t* p) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval* v, void*) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
}
// local time is not UTC here
__attribute__((constructor)) static void clk_zone() { setenv("TZ", "XYZ-5:45", 1); tzset(); }
