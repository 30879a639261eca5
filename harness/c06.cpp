// a writer push nobody interferes with
#include "buf.h"
static bool strict = false;
extern "C" int sched_yield() noexcept(true) {
  // waiting is C10's business, unless nothing has happened since a push
  CHECK(!strict, "a push right after another one does not wait");
  vf_end();
  return 0;
}
#include "writer.h"
typedef RTML_writer<Buf> W;
// the published state is in the buffer or in any writer, and arbitrary
static void settle(Buf &b, W &w, W &v, size_t &bot, size_t &top) {
  Ev e;
  any_event(e);
  int n = vf_choice(5);
  if (n == 1 || n == 2)
    w.push_all(e);
  if (n == 2)
    w.push(e);
  if (n == 3 || n == 4)
    v.push_all(e);
  if (n == 4)
    v.push(e);
  vf_havoc(&w, sizeof(w));
  vf_havoc(&v, sizeof(v));
  any_state(b, bot, top);
}
static Buf::error_t any_push(W &w, Ev &e, bool stamp) { return stamp ? w.push(e) : w.push_all(e); }
static void check_push(Buf &b, W &w, Ev &e, size_t bot, size_t top) {
  size_t j = any_slot(), bot2, top2;
  Ev before = e, other, other2, stored;
  bool stamp = vf_bool();
  b.read(other, j);
  Buf::error_t r = any_push(w, e, stamp);
  b.state(bot2, top2);
  bool full = ring_next(top) == bot;
  CHECK(top2 == ring_next(top), "a writer push adds exactly one event");
  CHECK(bot2 == (full ? ring_next(bot) : bot), "a writer push drops exactly the oldest of a full ring and nothing else");
  CHECK(r == (full ? Buf::BUFFER_OVERFLOW : Buf::OK), "a writer push reports BUFFER_OVERFLOW exactly when it dropped one");
  CHECK(b.read(stored, ring_prev(top2)) == Buf::OK && same_event(stored, e), "the pushed event is the newest of the ring");
  CHECK(e.getData() == before.getData() && (stamp || e.getTime() == before.getTime()), "a writer push leaves the caller's data alone");
  b.read(other2, j);
  CHECK(j == top || same_event(other, other2), "a writer push leaves every other slot in place");
}
ENTRY(push) {
  Buf b;
  W w(b), v(b);
  size_t bot, top;
  settle(b, w, v, bot, top);
  Ev e;
  any_event(e);
  check_push(b, w, e, bot, top);
}
ENTRY(sequence) {
  // the state a push leaves lets any attached writer push at once
  Buf b;
  W w(b), v(b);
  size_t bot, top;
  settle(b, w, v, bot, top);
  Ev e, x;
  any_event(e);
  bool stamp = vf_bool(), other = vf_bool();
  any_push(w, e, stamp);
  strict = true;
  // direct removals do not get in the way
  int op = vf_choice(3);
  if (op == 1)
    b.pull(x);
  else if (op == 2)
    b.pop(x);
  any_event(e);
  any_push(other ? v : w, e, stamp != other);
  vf_reach("two pushes in a row");
}
ENTRY(fresh) {
  Buf b;
  W w(b), v(b);
  Ev e, d;
  any_event(e);
  any_event(d);
  size_t bot, top;
  strict = true;
  b.state(bot, top);
  check_push(b, w, e, bot, top);
  b.state(bot, top);
  check_push(b, vf_bool() ? w : v, d, bot, top);
  b.state(bot, top);
  check_push(b, vf_bool() ? w : v, e, bot, top);
}
