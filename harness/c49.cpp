// at most one push is in flight: under interference, a push publishes only from a state whose own push is complete
#include "contend.h"
extern "C" int sched_yield() noexcept(true) {
  if (in_setup || ++yields > DEPTH)
    vf_end();
  return 0;
}
static Frame *mine;
static unsigned published = 0;
static bool complete;
static void on_load(void *, size_t) { maybe_others(); }
static void on_cas(void *, size_t) {
  maybe_others();
  Frame *f = (Frame *)world.b->page.load().stateref;
  Ev s;
  world.b->read(s, f->pos);
  complete = same_event(s, f->event);
}
static void on_post(bool done) {
  if (!done)
    return;
  published++;
  mine = (Frame *)world.b->page.load().stateref;
  CHECK(complete, "a push is published only when the event of the latest one is in its slot");
}
static inline __attribute__((always_inline)) void run(int n, bool stamp) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  in_setup = false;
  vf_opt("unroll", 50);
  Ev e, slot;
  any_event(e);
  published = 0;
  interfere = true;
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  vf_cb_cas(&b.page, sizeof(b.page), on_cas);
  vf_cb_post(&b.page, sizeof(b.page), on_post);
  if (stamp)
    w.push(e);
  else
    w.push_all(e);
  interfere = false;
  vf_unwatch_all();
  vf_reach("the push got through");
  // its own push is complete when it returns, for whoever comes next
  Frame *f = (Frame *)b.page.load().stateref;
  b.read(slot, f->pos);
  CHECK(f != mine || same_event(slot, f->event), "a push that returns is complete");
}
#define R(n)                                                                   \
  ENTRY(push_##n) { run(n, true); }                                            \
  ENTRY(push_all_##n) { run(n, false); }
R(0)
R(1)
R(2)
R(3)
