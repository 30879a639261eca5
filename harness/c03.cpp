#include "buf.h"
ENTRY(pull) {
  Buf b;
  size_t bot, top, bot2, top2;
  any_state(b, bot, top);
  size_t n = b.length(), i = any_slot();
  Ev e, e0, slot, oldest, slot2;
  any_event(e);
  e0 = e;
  b.read(slot, i);
  b.read(oldest, bot);
  vf_snap(1, &b, sizeof(b));
  Buf::error_t r = b.pull(e);
  b.state(bot2, top2);
  b.read(slot2, i);
  CHECK(same_event(slot, slot2), "pull changes no slot");
  if (bot == top) {
    CHECK(r == Buf::EMPTY, "pull of an empty buffer reports EMPTY");
    CHECK(vf_same(1, &b), "pull of an empty buffer changes nothing");
    CHECK(same_event(e, e0), "pull of an empty buffer leaves the caller's event alone");
  } else {
    CHECK(r == Buf::OK || r == Buf::UNSAFE, "pull of an event reports success");
    CHECK(same_event(e, oldest), "pull delivers the oldest event");
    CHECK(bot2 == ring_next(bot) && top2 == top, "pull removes exactly the oldest event");
    CHECK(b.length() == n - 1, "pull removes one event");
  }
}
ENTRY(pop) {
  Buf b;
  size_t bot, top, bot2, top2;
  any_state(b, bot, top);
  size_t n = b.length(), i = any_slot();
  Ev e, e0, slot, newest, slot2;
  any_event(e);
  e0 = e;
  b.read(slot, i);
  b.read(newest, ring_prev(top));
  vf_snap(1, &b, sizeof(b));
  Buf::error_t r = b.pop(e);
  b.state(bot2, top2);
  b.read(slot2, i);
  CHECK(same_event(slot, slot2), "pop changes no slot");
  if (bot == top) {
    CHECK(r == Buf::EMPTY, "pop of an empty buffer reports EMPTY");
    CHECK(vf_same(1, &b), "pop of an empty buffer changes nothing");
    CHECK(same_event(e, e0), "pop of an empty buffer leaves the caller's event alone");
  } else {
    CHECK(r == Buf::OK || r == Buf::UNSAFE, "pop of an event reports success");
    CHECK(same_event(e, newest), "pop delivers the newest event");
    CHECK(bot2 == bot && top2 == ring_prev(top), "pop removes exactly the newest event");
    CHECK(b.length() == n - 1, "pop removes one event");
  }
}
ENTRY(unsafe_base) {
  Buf b;
  Ev e;
  any_event(e);
  int k = vf_choice(3);
  for (int i = 0; i < k; i++)
    b.increment_writer();
  b.push(e);
  bool which = vf_bool();
  Buf::error_t r = which ? b.pull(e) : b.pop(e);
  CHECK(r == (k > 1 ? Buf::UNSAFE : Buf::OK), "success is UNSAFE exactly with more than one writer");
}
ENTRY(unsafe_step) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  bool which = vf_bool();
  Buf::error_t r = which ? b.pull(e) : b.pop(e);
  if (r == Buf::EMPTY)
    return;
  if (b.length() == 0)
    return;
  bool attach = vf_bool();
  if (attach) {
    b.increment_writer();
    if (r == Buf::UNSAFE)
      CHECK((which ? b.pop(e) : b.pull(e)) == Buf::UNSAFE, "success stays UNSAFE when another writer attaches");
  } else
    CHECK((which ? b.pop(e) : b.pull(e)) == r, "pull and pop agree on success");
}
ENTRY(agree_with_push) {
  // the same writer count decides all three operations
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  Buf::error_t p = b.push(e);
  Buf::error_t r = vf_bool() ? b.pull(e) : b.pop(e);
  if (p != Buf::BUFFER_OVERFLOW)
    CHECK(p == r, "push, pull and pop agree on the number of writers");
}
