// the trace cursor
#include "pub.h"
#include "wait.h"
// the cursor anywhere from the oldest position to the end of the window
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top, rb, rt, c;                                                  \
  publish(b, w, bot, top);                                                     \
  XT r(b);                                                                     \
  any_trace(r, rb, rt, c);                                                     \
  ASSUME(ring_off(rb, c) <= ring_len(rb, rt));                                 \
  Ev e, before, want;                                                          \
  any_event(e);                                                                \
  before = e;                                                                  \
  timespanw ts = r.ts();                                                       \
  vf_snap(1, &r, sizeof(r));                                                   \
  (void)ts
#define WINDOW CHECK(r.b() == rb && r.t() == rt && r.ts() == ts, "the cursor moves, the window stays")
ENTRY(counts) {
  SETUP;
  CHECK(r.consumed() + r.length() == ring_len(rb, rt), "remaining and consumed add up to the window");
  CHECK(r.length() == ring_len(c, rt), "the remaining events are those from the cursor to the end");
  CHECK(r.consumed() == ring_off(rb, c), "the consumed events are those before the cursor");
  CHECK(r.get_cursor() == c, "the cursor is what it is");
  CHECK(vf_same(1, &r), "asking changes nothing");
}
ENTRY(increment) {
  SETUP;
  Trace::error_t x = r.increment_cursor();
  WINDOW;
  CHECK(x == (c == rt ? Trace::UNAVAILABLE : Trace::AVAILABLE), "increment refuses exactly at the end of the window");
  CHECK(r.get_cursor() == (c == rt ? c : ring_next(c)), "increment moves to the next slot of the ring");
}
ENTRY(decrement) {
  SETUP;
  Trace::error_t x = r.decrement_cursor();
  WINDOW;
  CHECK(x == (c == rb ? Trace::UNAVAILABLE : Trace::AVAILABLE), "decrement refuses exactly at the start of the window");
  CHECK(r.get_cursor() == (c == rb ? c : ring_prev(c)), "decrement moves to the previous slot of the ring");
}
ENTRY(read_next) {
  SETUP;
  b.read(want, ring_next(c));
  bool can = ring_len(c, rt) >= 2;
  Trace::error_t x = r.read_next(e);
  CHECK(vf_same(1, &r), "reading changes nothing");
  CHECK(x == (can ? Trace::AVAILABLE : Trace::UNAVAILABLE), "reading the next event refuses exactly at the last event");
  CHECK(same_event(e, can ? want : before), "the next event is the one of the next slot");
}
ENTRY(read_previous) {
  SETUP;
  b.read(want, ring_prev(c));
  bool can = c != rb;
  Trace::error_t x = r.read_previous(e);
  CHECK(vf_same(1, &r), "reading changes nothing");
  CHECK(x == (can ? Trace::AVAILABLE : Trace::UNAVAILABLE), "reading the previous event refuses exactly at the first event");
  CHECK(same_event(e, can ? want : before), "the previous event is the one of the previous slot");
}
ENTRY(read) {
  SETUP;
  b.read(want, c);
  Trace::error_t x = r.read(e);
  CHECK(vf_same(1, &r), "reading changes nothing");
  CHECK(x == Trace::AVAILABLE && same_event(e, want), "reading delivers the event under the cursor");
}
ENTRY(pull) {
  SETUP;
  b.read(want, c);
  Trace::error_t x = r.pull(e);
  size_t n = ring_len(c, rt);
  WINDOW;
  if (n > 0) {
    CHECK(same_event(e, want), "a pull delivers the event under the cursor");
    CHECK(r.get_cursor() == ring_next(c), "a pull moves one event on");
    CHECK(x == (n > 1 ? Trace::AVAILABLE : Trace::UNAVAILABLE), "a pull is available exactly when events remain");
  } else {
    CHECK(x == Trace::UNAVAILABLE && r.get_cursor() == c && same_event(e, before), "a pull with nothing left changes nothing");
  }
}
ENTRY(set_cursor) {
  SETUP;
  size_t i = vf_u64(), i0 = i;
  Trace::error_t x = r.set_cursor(i);
  WINDOW;
  CHECK(i == i0, "setting the cursor leaves the argument alone");
  CHECK(x == (i <= CAP ? Trace::AVAILABLE : Trace::UNAVAILABLE), "setting the cursor accepts exactly ring slots");
  CHECK(r.get_cursor() == (i <= CAP ? i : c), "setting the cursor puts it there or changes nothing");
}
ENTRY(reset) {
  SETUP;
  Trace::error_t x = r.reset();
  WINDOW;
  CHECK(x == Trace::AVAILABLE && r.get_cursor() == rb, "reset puts the cursor on the oldest event");
}
ENTRY(fresh) {
  Buf b;
  Trace t(b);
  size_t mem = 5;
  Trace u(b, mem);
  CHECK(t.get_cursor() == 0 && u.get_cursor() == 0 && mem == 5, "a new cursor is on the first slot");
}
