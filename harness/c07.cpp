// what a push publishes and what it writes, under interference
#include "contend.h"
extern "C" int sched_yield() noexcept(true) {
  if (in_setup || ++yields > DEPTH)
    vf_end();
  return 0;
}
static page_t before;
static size_t top0, bot0, claimed, probe;
static unsigned published = 0;
static Ev *pushed;
static Ev probe0;
static void on_load(void *, size_t) { maybe_others(); }
static void on_cas(void *, size_t) {
  maybe_others();
  before = world.b->page.load();
  Frame *f = (Frame *)before.stateref;
  top0 = f->top;
  bot0 = f->bottom;
  world.b->read(probe0, probe);
}
static void on_post(bool done) {
  page_t now = world.b->page.load();
  if (!done)
    return;
  published++;
  CHECK(UNVERSIONED || VERSION(now) != VERSION(before), "a publication carries a new version");
  CHECK(now.stateref != before.stateref, "a publication replaces the frame");
  Frame *f = (Frame *)now.stateref;
  CHECK(vf_sameobj(f, world.w), "a push publishes memory of its own writer");
  CHECK(f->top == ring_next(top0), "the published top is one step on");
  CHECK(f->bottom == (ring_next(top0) == bot0 ? ring_next(bot0) : bot0), "the published bottom moves exactly when the ring was full");
  CHECK(f->pos == top0, "the published state names the slot being filled");
  CHECK(same_event(f->event, *pushed), "the published state holds the event being pushed");
  claimed = top0;
}
static void on_buffer_write(void *p, size_t n) {
  Buf *b = world.b;
  CHECK((char *)p + n <= (char *)&b->page || (char *)(&b->page + 1) <= (char *)p, "the shared state changes by compare-and-swap only");
  CHECK(published > 0, "a slot is written only after the publication that claims it");
}
// a store into the writer must not touch the frame that is published at that time
static void on_own_write(void *p, size_t n) {
  page_t now = world.b->page.load();
  Frame *f = (Frame *)now.stateref;
  if (vf_sameobj(f, world.w))
    CHECK((char *)p + n <= (char *)f || (char *)f + sizeof(Frame) <= (char *)p, "a writer never modifies its published state");
}
static inline __attribute__((always_inline)) void run(int n, bool stamp) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  in_setup = false;
  vf_opt("unroll", 50);
  Ev e, slot;
  any_event(e);
  pushed = &e;
  probe = any_slot();
  published = 0;
  interfere = true;
  vf_noplain(&b.page, sizeof(b.page), "the shared state is only accessed atomically");
  vf_nowrite(&e0, sizeof(e0), "a state owned by another writer is never written");
  vf_nowrite(&e1, sizeof(e1), "a state owned by another writer is never written");
  vf_nowrite(&b.state_global, sizeof(b.state_global), "a state that is not the writer's own is never written");
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  vf_cb_cas(&b.page, sizeof(b.page), on_cas);
  vf_cb_post(&b.page, sizeof(b.page), on_post);
  vf_cb_store(&b, sizeof(b), on_buffer_write);
  vf_cb_store(&w, sizeof(w), on_own_write);
  if (stamp)
    w.push(e);
  else
    w.push_all(e);
  interfere = false;
  vf_unwatch_all();
  CHECK(published == 1, "a push publishes exactly once before it returns");
  b.read(slot, probe);
  CHECK(probe == claimed ? same_event(slot, e) : same_event(slot, probe0), "a push writes exactly the slot it claimed");
}
ENTRY(push_0) { run(0, true); }
ENTRY(push_1) { run(1, true); }
ENTRY(push_2) { run(2, true); }
ENTRY(push_3) { run(3, true); }
ENTRY(push_all_0) { run(0, false); }
ENTRY(push_all_1) { run(1, false); }
ENTRY(push_all_2) { run(2, false); }
ENTRY(push_all_3) { run(3, false); }
