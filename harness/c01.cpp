// no operation of the buffer leaves its storage; indices that are no slot are refused
#include "buf.h"
ENTRY(construct) {
  Buf b;
  size_t bot, top;
  b.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends of a new buffer are slots");
  CHECK(b.size == CAP + 1 && b.size_util == CAP, "capacity of a new buffer");
}
ENTRY(push) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  b.push(e);
  b.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends stay slots after push");
}
ENTRY(pull) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  b.pull(e);
  b.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends stay slots after pull");
}
ENTRY(pop) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e;
  any_event(e);
  b.pop(e);
  b.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends stay slots after pop");
}
ENTRY(read) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  Ev e, before;
  any_event(e);
  before = e;
  size_t i = vf_u64();
  vf_snap(1, &b, sizeof(b));
  Buf::error_t r = b.read(e, i);
  CHECK(vf_same(1, &b), "read leaves the buffer alone");
  if (i <= CAP) {
    CHECK(r == Buf::OK, "reading a slot reports OK");
    Ev again;
    b.read(again, i);
    CHECK(same_event(e, again), "reading a slot twice delivers the same event");
  } else {
    CHECK(r == Buf::OUT_OF_BOUND, "reading no slot reports OUT_OF_BOUND");
    CHECK(same_event(e, before), "reading no slot leaves the caller's event alone");
  }
}
ENTRY(write) {
  Buf b;
  size_t bot, top, bot2, top2;
  any_state(b, bot, top);
  Ev e, before, other, other2;
  any_event(e);
  before = e;
  size_t i = vf_u64(), j = any_slot();
  b.read(other, j);
  vf_snap(1, &b, sizeof(b));
  Buf::error_t r = b.write(e, i);
  CHECK(same_event(e, before), "write leaves the caller's event alone");
  b.state(bot2, top2);
  CHECK(bot2 == bot && top2 == top, "write moves no end");
  b.read(other2, j);
  if (i <= CAP) {
    CHECK(r == Buf::OK, "writing a slot reports OK");
    if (i == j)
      CHECK(same_event(other2, e), "writing a slot stores the event there");
    else
      CHECK(same_event(other2, other), "writing a slot changes no other slot");
  } else {
    CHECK(r == Buf::OUT_OF_BOUND, "writing no slot reports OUT_OF_BOUND");
    CHECK(vf_same(1, &b), "writing no slot leaves the buffer alone");
  }
}
ENTRY(observe) {
  Buf b;
  size_t bot, top;
  timespanw ts, tst;
  any_state(b, bot, top);
  b.state(bot, top, ts, tst);
  CHECK(b.length() <= CAP, "length is at most the capacity");
  b.increment_writer();
}
ENTRY(debug) {
  Buf b;
  size_t bot, top;
  any_state(b, bot, top);
  b.debug();
  vf_reach("debug dump ends");
}
ENTRY(assign) {
  Buf a, b;
  size_t bot, top;
  any_state(a, bot, top);
  any_state(b, bot, top);
  a = b;
  a.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends of a copy are slots");
}
#include "wait.h"
#include "writer.h"
typedef RTML_writer<Buf> W;
// the published state may live in a writer
static void published(Buf &b, W &w, size_t &bot, size_t &top) {
  Ev e;
  any_event(e);
  w.push_all(e);
  if (vf_bool())
    w.push_all(e);
  vf_havoc(&w, sizeof(w));
  any_state(b, bot, top);
}
ENTRY(after_writer) {
  Buf b;
  W w(b);
  size_t bot, top;
  published(b, w, bot, top);
  Ev e;
  any_event(e);
  int op = vf_choice(6);
  if (op == 0) b.push(e);
  else if (op == 1) b.pull(e);
  else if (op == 2) b.pop(e);
  else if (op == 3) w.push(e);
  else if (op == 4) b.length();
  else b.debug();
  b.state(bot, top);
  CHECK(bot <= CAP && top <= CAP, "the ends stay slots when a writer holds the state");
}
static void short_lived(Buf &b) {
  W w(b);
  Ev e;
  any_event(e);
  w.push_all(e);
}
ENTRY(writer_scope) {
  // the buffer after its last writer is gone
  Buf b;
  short_lived(b);
  b.length();
}
