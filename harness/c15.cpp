// synchronisation
#include "pub.h"
#include "wait.h"
static void check_sync(Buf &b, XR &r) {
  size_t bot, top, rb = r.b();
  b.state(bot, top);
  ASSUME(bot != top);
  Ev oldest, first;
  b.read(oldest, rb);
  b.read(first, bot);
  timespanw ts = r.ts();
  // the slot of the oldest event is free or holds a later event
  bool lost = rb == top || oldest.getTime() > ts;
  Reader::gap_error_t g = r.synchronize();
  CHECK(r.t() == top, "the newest published event is the end of the window");
  CHECK(g == (lost ? Reader::GAP : Reader::NO_GAP), "a gap is reported exactly when the oldest event of the reader is gone");
  CHECK(lost || (r.b() == rb && r.ts() == ts), "without a gap the oldest position stays");
  CHECK(!lost || (r.b() == bot && r.ts() == first.getTime()), "after a gap the window restarts at the oldest event of the buffer");
}
ENTRY(sync) {
  Buf b;
  W w(b);
  size_t bot, top, rb, rt;
  publish(b, w, bot, top);
  XR r(b);
  any_reader(r, rb, rt);
  check_sync(b, r);
}
ENTRY(attach) {
  Buf b;
  W w(b);
  size_t bot, top;
  publish(b, w, bot, top);
  XR r(b);
  check_sync(b, r);
}
// nothing is reported lost, and nothing is skipped, when nothing was
ENTRY(again) {
  Buf b;
  W w(b);
  size_t bot, top, rb, rt;
  publish(b, w, bot, top);
  ASSUME(bot != top);
  XR r(b);
  any_reader(r, rb, rt);
  r.synchronize();
  size_t b0 = r.b(), n = r.length();
  ASSUME(n < CAP);
  Ev e, o;
  b.read(o, b0);
  ASSUME(o.getTime() == r.ts());
  any_event(e);
  w.push_all(e);
  Reader::gap_error_t g = r.synchronize();
  CHECK(g == Reader::NO_GAP, "a push that loses nothing is no gap");
  CHECK(r.b() == b0 && r.length() == n + 1, "the reader gains exactly the pushed event");
}
// an empty buffer
ENTRY(empty) {
  Buf b;
  W w(b);
  size_t bot, top, rb, rt;
  publish(b, w, bot, top);
  ASSUME(bot == top);
  XR r(b);
  any_reader(r, rb, rt);
  timespanw ts = r.ts();
  Reader::gap_error_t g = r.synchronize();
  CHECK(g != Reader::NO_GAP, "a reader of an empty buffer is not told that nothing was lost");
  if (rb == 0 && rt == 0)
    CHECK(g == Reader::GAP && r.b() == bot && r.t() == top, "a reader attaching to an empty buffer reports a gap and has an empty window");
  else
    CHECK(g == Reader::UNKNOWN_GAP && r.b() == rb && r.t() == rt && r.ts() == ts, "any other reader of an empty buffer keeps its window and reports no gap of its own");
}
