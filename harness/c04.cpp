#include "buf.h"
ENTRY(fresh) {
  Buf b;
  size_t bot, top;
  CHECK(b.length() == 0, "a new buffer is empty");
  b.state(bot, top);
  CHECK(bot == top && bot <= CAP, "the ends of a new buffer meet");
  Ev e;
  any_event(e);
  CHECK(b.pull(e) == Buf::EMPTY && b.pop(e) == Buf::EMPTY, "a new buffer delivers nothing");
}
ENTRY(observe) {
  Buf b;
  size_t bot, top, bot2, top2;
  any_state(b, bot, top);
  vf_snap(1, &b, sizeof(b));
  size_t n = b.length();
  CHECK(vf_same(1, &b), "length changes nothing");
  CHECK(n == ring_len(bot, top), "length counts the slots from the oldest to the free one");
  CHECK(n <= CAP, "length never exceeds the capacity");
  timespanw ts, tst;
  Buf::error_t r = b.state(bot2, top2, ts, tst);
  CHECK(vf_same(1, &b), "state changes nothing");
  CHECK(r == Buf::OK, "state reports OK");
  CHECK(bot2 == bot && top2 == top, "both forms of state agree");
  Ev oldest;
  b.read(oldest, bot);
  CHECK(ts == oldest.getTime(), "state gives the timestamp of the oldest slot");
  Ev e;
  any_event(e);
  size_t i = vf_u64();
  b.read(e, i);
  CHECK(vf_same(1, &b), "read changes nothing");
  b.debug();
  CHECK(vf_same(1, &b), "debug changes nothing");
}
// positions and length mean what push and pull do
ENTRY(count) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  size_t n = b.length();
  Ev e, o, x;
  any_event(e);
  b.read(o, bot);
  if (n > 0) {
    CHECK(b.pull(x) != Buf::EMPTY && same_event(x, o), "the oldest position is the one pull delivers");
    CHECK(b.length() == n - 1, "length falls by one with a pull");
  } else {
    CHECK(b.pull(x) == Buf::EMPTY, "nothing to pull at length zero");
    b.push(e);
    CHECK(b.length() == 1, "length of one event");
    b.read(o, top);
    CHECK(same_event(e, o), "the free slot is the one push fills");
  }
}
