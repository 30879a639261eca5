// the copy of a buffer
#include "buf.h"
#include "wait.h"
#include "writer.h"
typedef RTML_writer<Buf> W;
static void settle(Buf &b, W &w, Ev &e, int pushes, size_t &bot, size_t &top) {
  // the published state lives in the buffer or in either frame of the writer
  for (int i = 0; i < pushes; i++)
    w.push_all(e);
  vf_havoc(&w, sizeof(w));
  any_state(b, bot, top);
}
ENTRY(copy) {
  Buf a, b;
  W w(b);
  Ev e;
  any_event(e);
  size_t bot, top, bot1, top1, bot2, top2;
  any_state(a, bot1, top1);
  settle(b, w, e, vf_choice(3), bot, top);
  size_t i = any_slot();
  Ev s, s1, s2;
  b.read(s, i);
  vf_snap(1, &b, sizeof(b));
  vf_snap(2, &w, sizeof(w));
  a = b;
  CHECK(vf_same(1, &b) && vf_same(2, &w), "assignment leaves the source alone");
  a.state(bot1, top1);
  CHECK(bot1 == bot && top1 == top && a.length() == b.length(), "the copy has the same state");
  a.read(s1, i);
  CHECK(same_event(s, s1), "the copy has the same slots");
  any_event(e);
  // any operation on one leaves the other's reports alone
  int op = vf_choice(8);
  Ev x;
  any_event(x);
  size_t j = vf_u64();
  if (op < 4) {
    if (op == 0) a.push(x);
    else if (op == 1) a.pull(x);
    else if (op == 2) a.pop(x);
    else a.write(x, j);
    b.state(bot2, top2);
    b.read(s2, i);
    CHECK(bot2 == bot && top2 == top && same_event(s, s2), "operations on the copy leave the source alone");
  } else {
    if (op == 4) b.push(x);
    else if (op == 5) b.pull(x);
    else if (op == 6) b.pop(x);
    else b.write(x, j);
    a.state(bot2, top2);
    a.read(s2, i);
    CHECK(bot2 == bot && top2 == top && same_event(s, s2), "operations on the source leave the copy alone");
  }
}
ENTRY(writer_on_source) {
  Buf a, b;
  W w(b);
  Ev e;
  any_event(e);
  size_t bot, top, bot1, top1;
  any_state(a, bot1, top1);
  settle(b, w, e, vf_choice(3), bot, top);
  a = b;
  size_t i = any_slot();
  Ev s, s2;
  a.read(s, i);
  any_event(e);
  w.push_all(e);
  a.state(bot1, top1);
  a.read(s2, i);
  CHECK(bot1 == bot && top1 == top && same_event(s, s2), "a writer of the source leaves the copy alone");
}
ENTRY(writer_on_copy) {
  Buf a, b;
  W w(b), v(a);
  Ev e;
  any_event(e);
  size_t bot, top, bot1, top1;
  settle(b, w, e, vf_choice(3), bot, top);
  a = b;
  size_t i = any_slot();
  Ev s, s2;
  b.read(s, i);
  any_event(e);
  v.push_all(e);
  b.state(bot1, top1);
  b.read(s2, i);
  CHECK(bot1 == bot && top1 == top && same_event(s, s2), "a writer of the copy leaves the source alone");
}
// what a writer of the source could do at once, a writer of the copy can
ENTRY(push_on_copy) {
  Buf a, b;
  W w(b), v(a);
  Ev e, f, g, x;
  any_event(e);
  size_t bot, top, bot1, top1;
  settle(b, w, e, vf_choice(3), bot, top);
  any_event(x);
  w.push_all(x); // waits unless the ring is settled; afterwards it is
  b.state(bot, top);
  a = b;
  size_t i = any_slot();
  Ev s, s1;
  b.read(s, i);
  any_event(f);
  no_wait = true;
  v.push_all(f);
  no_wait = false;
  a.state(bot1, top1);
  a.read(g, top);
  CHECK(same_event(f, g) && top1 == ring_next(top), "a push on the copy appends its event");
  CHECK(bot1 == (ring_next(top) == bot ? ring_next(bot) : bot), "a push on the copy loses only the oldest event of a full ring");
  a.read(s1, i);
  CHECK(i == top || same_event(s, s1), "a push on the copy leaves the other slots alone");
}
ENTRY(self) {
  Buf b;
  W w(b);
  Ev e;
  any_event(e);
  size_t bot, top;
  settle(b, w, e, vf_choice(3), bot, top);
  vf_snap(1, &b, sizeof(b));
  vf_snap(2, &w, sizeof(w));
  Buf &r = (b = b);
  CHECK(vf_same(1, &b) && vf_same(2, &w), "assigning a buffer to itself changes nothing");
  CHECK(&r == &b, "assignment returns its destination");
}
ENTRY(outlives) {
  // the copy does not depend on the source or its writers staying alive
  Buf a;
  size_t bot, top, bot1, top1;
  {
    Buf b;
    W w(b);
    Ev e;
    any_event(e);
    settle(b, w, e, vf_choice(3), bot, top);
    a = b;
  }
  a.state(bot1, top1);
  CHECK(bot1 == bot && top1 == top, "the copy outlives its source");
}
