// pull and pop of a reader
#include "pub.h"
#include "wait.h"
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top, rb, rt;                                                     \
  publish(b, w, bot, top);                                                     \
  XR r(b);                                                                     \
  any_reader(r, rb, rt);                                                       \
  size_t n = ring_len(rb, rt);                                                 \
  Ev e, before, want;                                                          \
  any_event(e);                                                                \
  before = e;                                                                  \
  vf_snap(1, &r, sizeof(r))
ENTRY(length) {
  SETUP;
  CHECK(r.length() == n, "the length of a reader counts the slots between its ends");
  CHECK(n <= CAP, "a reader never holds more than the capacity");
  CHECK(vf_same(1, &r), "asking for the length changes nothing");
}
ENTRY(pull) {
  SETUP;
  b.read(want, rb);
  Reader::error_t x = r.pull(e);
  if (n >= 2) {
    vf_reach("pull delivers");
    CHECK(x == Reader::AVAILABLE || x == Reader::READER_OVERFLOW, "a pull with two events in the window delivers");
    CHECK(same_event(e, want), "a pull delivers the oldest event of the window");
    CHECK(r.b() == ring_next(rb) && r.t() == rt, "a pull removes exactly the oldest event of the window");
    CHECK(r.length() == n - 1, "a pull removes exactly one event");
  } else {
    CHECK(x == Reader::UNAVAILABLE, "a pull with fewer than two events in the window is refused");
    CHECK(vf_same(1, &r), "a refused pull leaves the reader alone");
    CHECK(same_event(e, before), "a refused pull leaves the caller's event alone");
  }
}
ENTRY(pop) {
  SETUP;
  b.read(want, ring_prev(rt));
  Reader::error_t x = r.pop(e);
  if (n >= 1) {
    CHECK(x == Reader::AVAILABLE || x == Reader::READER_OVERFLOW, "a pop on a non-empty window delivers");
    CHECK(same_event(e, want), "a pop delivers the newest event of the window");
    CHECK(r.t() == ring_prev(rt) && r.b() == rb, "a pop removes exactly the newest event of the window");
    CHECK(r.length() == n - 1, "a pop removes exactly one event");
  } else {
    CHECK(x == Reader::UNAVAILABLE, "a pop on an empty window is refused");
    CHECK(vf_same(1, &r), "a refused pop leaves the reader alone");
    CHECK(same_event(e, before), "a refused pop leaves the caller's event alone");
  }
}
ENTRY(fresh) {
  Buf b;
  Reader r(b);
  Trace t(b);
  Ev e, before;
  any_event(e);
  before = e;
  CHECK(r.length() == 0 && t.length() == 0 && t.consumed() == 0, "a new reader holds no event");
  CHECK(r.pull(e) == Reader::UNAVAILABLE && r.pop(e) == Reader::UNAVAILABLE && same_event(e, before), "a new reader delivers nothing");
}
