// overtaken readers
#include "pub.h"
#include "wait.h"
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top, rb, rt;                                                     \
  publish(b, w, bot, top);                                                     \
  XR r(b);                                                                     \
  any_reader(r, rb, rt);                                                       \
  size_t n = ring_len(rb, rt);                                                 \
  Ev e, oldest, second;                                                        \
  any_event(e);                                                                \
  b.read(oldest, rb);                                                          \
  b.read(second, ring_next(rb));                                               \
  bool overtaken = oldest.getTime() > r.ts()
ENTRY(gap) {
  SETUP;
  (void)n;
  vf_snap(1, &r, sizeof(r));
  Reader::gap_error_t g = r.gap();
  CHECK(overtaken || g == Reader::NO_GAP, "no gap is reported when the oldest event is the one recorded");
  CHECK(!overtaken || g == Reader::GAP, "a gap is reported when the oldest event was overwritten");
  CHECK(vf_same(1, &r), "gap detection changes nothing");
}
ENTRY(pull) {
  SETUP;
  ASSUME(n >= 2);
  Reader::error_t x = r.pull(e);
  CHECK(overtaken || x == Reader::AVAILABLE, "a pull of an event that is still there is available");
  CHECK(!overtaken || x == Reader::READER_OVERFLOW, "a pull of an overwritten event reports the overflow");
  CHECK(x != Reader::AVAILABLE || r.ts() == second.getTime(), "a successful pull records the time of the new oldest event");
}
ENTRY(pop) {
  SETUP;
  ASSUME(n >= 1);
  Reader::error_t x = r.pop(e);
  CHECK(overtaken || x == Reader::AVAILABLE, "a pop is available when the oldest event is the one recorded");
  CHECK(!overtaken || x == Reader::READER_OVERFLOW, "a pop of an overtaken reader reports the overflow");
}
