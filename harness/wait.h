// Waiting cut off: what is proved is about the pushes that get through;
// that a wait is well formed is decided by C10.
#ifndef VF_WAIT_H
#define VF_WAIT_H
#include "vf.h"
static bool no_wait = false;
extern "C" int sched_yield() noexcept(true) {
  if (no_wait)
    CHECK(false, "a push that finds the ring settled does not wait [if called]");
  vf_end();
  return 0;
}
#endif
