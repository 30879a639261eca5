#include "buf.h"
ENTRY(push) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  size_t n = b.length();
  size_t i = vf_u64();
  ASSUME(i < b.size);
  Ev before, e;
  vf_havoc(&before, sizeof(before));
  b.read(before, i);
  any_event(e);
  DATA d = e.getData();
  timespan t = e.getTime();
  Buf::error_t r = b.push(e);
  size_t bot2, top2;
  b.state(bot2, top2);
  CHECK(e.getData() == d && e.getTime() == t, "push leaves the caller's event alone");
  CHECK(top2 == ring_next(top), "push advances the free slot by one");
  Ev after;
  b.read(after, i);
  if (i == top) {
    CHECK(after.getData() == d && after.getTime() == t, "push stores the event in the free slot");
  } else
    CHECK(after.getData() == before.getData() && after.getTime() == before.getTime(), "push changes no other slot");
  if (n == CAP) {
    CHECK(bot2 == ring_next(bot), "push on a full ring drops exactly the oldest");
    CHECK(r == Buf::BUFFER_OVERFLOW, "push on a full ring reports overflow");
    CHECK(b.length() == CAP, "push on a full ring keeps it full");
  } else {
    CHECK(bot2 == bot, "push on a ring with room drops nothing");
    CHECK(r == Buf::OK || r == Buf::UNSAFE, "push on a ring with room reports no overflow");
    CHECK(b.length() == n + 1, "push adds exactly one event");
  }
  vf_reach("push end");
}
// the verdict for several writers, for any number of them
ENTRY(unsafe_base) {
  Buf b;
  Ev e;
  any_event(e);
  int k = vf_choice(3);
  for (int i = 0; i < k; i++)
    b.increment_writer();
  CHECK(b.push(e) == (k > 1 ? Buf::UNSAFE : Buf::OK), "push is UNSAFE exactly with more than one writer");
}
ENTRY(unsafe_step) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  if (b.push(e) != Buf::UNSAFE)
    return;
  b.state(bot, top);
  vf_snap(1, &b, sizeof(b));
  b.increment_writer();
  size_t bot2, top2;
  b.state(bot2, top2);
  CHECK(bot == bot2 && top == top2, "attaching a writer moves no end");
  if (ring_len(bot2, top2) < CAP)
    CHECK(b.push(e) == Buf::UNSAFE, "push stays UNSAFE when another writer attaches");
}
