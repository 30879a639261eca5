// the timestamps of pushed events
#include "clock.h"
#include "contend.h"
extern "C" int sched_yield() noexcept(true) {
  if (in_setup || ++yields > DEPTH)
    vf_end();
  return 0;
}
static bool stamping, published;
static Ev *pushed;
static void on_load(void *, size_t) {
  maybe_others();
  clock_fresh = false;
}
static void on_cas(void *, size_t) {
  maybe_others();
}
static void on_post(bool done) {
  if (!done)
    return;
  published = true;
  Frame *f = (Frame *)(world.b->page.load()).stateref;
  if (stamping) {
    CHECK(clock_fresh, "the clock is read after the snapshot the publication is based on");
    CHECK(pushed->getTime() == clock_value, "the event is stamped with the clock in nanoseconds");
  }
  CHECK(same_event(f->event, *pushed), "the published state and the caller's event agree");
  // later changes of the clock do not matter
  clock_fresh = false;
}
static inline __attribute__((always_inline)) void run(int n, bool stamp) {
  Buf b;
  W w(b);
  Frame e0, e1;
  clock_forbidden = false;
  any_world(b, w, e0, e1, n);
  in_setup = false;
  vf_opt("unroll", 50);
  Ev e, before, slot;
  any_event(e);
  before = e;
  pushed = &e;
  stamping = stamp;
  published = false;
  clock_reads = 0;
  interfere = true;
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  vf_cb_cas(&b.page, sizeof(b.page), on_cas);
  vf_cb_post(&b.page, sizeof(b.page), on_post);
  if (stamp) {
    w.push(e);
    CHECK(clock_reads > 0, "the stamping push reads the clock");
    CHECK(e.getData() == before.getData(), "stamping leaves the data alone");
  } else {
    clock_forbidden = true;
    vf_nowrite(&e, sizeof(e), "the non-stamping push never alters the event");
    w.push_all(e);
    CHECK(same_event(e, before), "the non-stamping push leaves the event as it was");
  }
  interfere = false;
  vf_unwatch_all();
  page_t p = b.page.load();
  Frame *f = (Frame *)p.stateref;
  b.read(slot, f->pos);
  CHECK(same_event(f->event, e), "the published event is the caller's");
  CHECK(same_event(slot, e), "the stored slot is the caller's event");
}
ENTRY(push_0) { run(0, true); }
ENTRY(push_1) { run(1, true); }
ENTRY(push_2) { run(2, true); }
ENTRY(push_3) { run(3, true); }
ENTRY(push_all_0) { run(0, false); }
ENTRY(push_all_3) { run(3, false); }
// timestamps along the ring follow the clock: an event pushed later is not stamped earlier
ENTRY(order) {
  Buf b;
  W w(b), v(b);
  Ev e, d;
  in_setup = false;
  any_event(e);
  any_event(d);
  w.push(e);
  uint64_t first = clock_value;
  v.push(d);
  ASSUME(first <= clock_value);
  size_t bot, top;
  b.state(bot, top);
  Ev x, y;
  b.read(y, ring_prev(top));
  b.read(x, ring_prev(ring_prev(top)));
  CHECK(CAP == 1 || x.getTime() <= y.getTime(), "timestamps never decrease along the ring");
}
