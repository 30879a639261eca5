// the system clock: any normalised time, remembered
#ifndef VF_CLOCK_H
#define VF_CLOCK_H
#include "vf.h"
#include <time.h>
static unsigned clock_reads = 0;
static bool clock_fresh = false, clock_forbidden = false;
static uint64_t clock_value = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept(true) {
  CHECK(!clock_forbidden, "a push that does not stamp never reads the clock");
#ifdef __rtems__
  CHECK(id == CLOCK_MONOTONIC, "timestamps come from the monotonic clock");
#else
  CHECK(id == CLOCK_REALTIME, "timestamps come from the realtime clock");
#endif
  t->tv_sec = vf_range(0, 9000000000L);
  t->tv_nsec = vf_range(0, 999999999L);
  clock_value = (uint64_t)t->tv_sec * 1000000000UL + (uint64_t)t->tv_nsec;
  clock_reads++;
  clock_fresh = true;
  return 0;
}
#endif
