// the two ends an observer reports belong together
#include "contend.h"
extern "C" int sched_yield() noexcept(true) {
  vf_end();
  return 0;
}
// every state that was published while the operation ran
static size_t seen_b[4], seen_t[4];
static unsigned seen;
static bool reuse;
static void note(Frame *f) {
  seen_b[seen] = f->bottom;
  seen_t[seen] = f->top;
  seen++;
}
static void on_load(void *, size_t) {
  maybe_others();
  if (seen < 4)
    note((Frame *)(world.b->page.load()).stateref);
}
// a writer that publishes twice may rewrite the frame it had published first
static void on_frame(void *, size_t) {
  if (reuse && interferences < DEPTH && vf_bool()) {
    interferences++;
    any_frame(world.env0);
    note(world.env0);
  }
}
static bool matches(size_t b, size_t t) {
  for (unsigned i = 0; i < seen; i++)
    if (seen_b[i] == b && seen_t[i] == t)
      return true;
  return false;
}
static inline __attribute__((always_inline)) void run(int n, bool again) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  vf_opt("unroll", 50);
  reuse = again;
  seen = 0;
  interfere = true;
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  vf_cb_load(&e0, sizeof(e0), on_frame);
  size_t bot, top;
  timespanw ts, ts_t;
  if (vf_bool())
    b.state(bot, top);
  else
    b.state(bot, top, ts, ts_t);
  interfere = false;
  vf_unwatch_all();
  CHECK(seen > 0 && matches(bot, top), "the two ends reported are those of one published state");
}
static bool matches_length(size_t n) {
  for (unsigned i = 0; i < seen; i++)
    if (ring_len(seen_b[i], seen_t[i]) == n)
      return true;
  return false;
}
static inline __attribute__((always_inline)) void run_length(int n) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  vf_opt("unroll", 50);
  reuse = false;
  seen = 0;
  interfere = true;
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  size_t l = b.length();
  interfere = false;
  vf_unwatch_all();
  CHECK(seen > 0 && matches_length(l), "the length reported is that of one published state");
}
ENTRY(length_0) { run_length(0); }
ENTRY(length_3) { run_length(3); }
ENTRY(snapshot_0) { run(0, false); }
ENTRY(snapshot_1) { run(1, false); }
ENTRY(snapshot_3) { run(3, false); }
ENTRY(snapshot_of_reused_frame) { run(3, true); }
