// waiting and retrying
#include "contend.h"
#define ROUNDS 2
enum { QUIET, PERSIST, RELEASE };
static int mode;
static unsigned loads, cas_failed, yields_since_load;
static bool released;
static Frame *current() { return (Frame *)(world.b->page.load()).stateref; }
static bool pending() {
  Ev s;
  Frame *f = current();
  world.b->read(s, f->pos);
  return !same_event(s, f->event);
}
// the other writer finishes: it stores its event, perhaps after publishing once more
static void finish() {
  if (vf_bool())
    others();
  Frame *f = current();
  vf_unwatch_all();
  Ev e = f->event;
  world.b->write(e, f->pos);
  ASSUME(!pending());
}
static void on_load(void *, size_t) {
  loads++;
  yields_since_load = 0;
  CHECK(loads <= 3, "waiting for another writer yields on every iteration");
}
static void on_cas(void *, size_t) {
  if (mode == PERSIST || (mode == RELEASE && !released)) {
    others();
    cas_failed++;
    CHECK(cas_failed == 1, "a retry after a lost race yields first");
    if (mode == RELEASE)
      released = false;
  }
}
extern "C" int sched_yield() noexcept(true) {
  if (in_setup)
    vf_end();
  yields++;
  yields_since_load++;
  CHECK(mode != QUIET, "a push without contention does not wait");
  CHECK(!released, "a wait ends as soon as the other writer has finished");
  CHECK(yields_since_load <= 1, "waiting re-reads the shared state on every iteration");
  loads = 0;
  cas_failed = 0;
  if (mode == PERSIST && yields > ROUNDS)
    vf_end();
  if (mode == RELEASE) {
    finish();
    released = true;
  }
  return 0;
}
static inline __attribute__((always_inline)) void run(int n, int m, bool stamp) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  in_setup = false;
  vf_opt("unroll", 50);
  Ev e;
  any_event(e);
  mode = m;
  if (m == QUIET)
    ASSUME(!pending());
  if (m != QUIET) {
    vf_cb_load(&b.page, sizeof(b.page), on_load);
    vf_cb_cas(&b.page, sizeof(b.page), on_cas);
  }
  vf_opt("must_terminate", 20);
  if (stamp)
    w.push(e);
  else
    w.push_all(e);
  vf_reach("the push gets through");
  CHECK(m != RELEASE || !released || yields == 1, "one round of waiting is enough when the other writer has finished");
}
#define R(n, s)                                                                \
  ENTRY(quiet_##n##_##s) { run(n, QUIET, s); }                                 \
  ENTRY(persist_##n##_##s) { run(n, PERSIST, s); }                             \
  ENTRY(release_##n##_##s) { run(n, RELEASE, s); }
R(0, true)
R(1, true)
R(3, true)
R(0, false)
R(2, false)
R(3, false)

// operations of the buffer itself: none of them leaves behind a push that a writer would wait for
template <class F> static inline __attribute__((always_inline)) void direct(int n, F op) {
  Buf b;
  W w(b);
  Frame e0, e1;
  any_world(b, w, e0, e1, n);
  in_setup = false;
  mode = QUIET;
  ASSUME(!pending());
  op(b);
  vf_reach("the operation returned");
  CHECK(!pending(), "an operation of the buffer itself leaves no push to wait for");
}
#define D(n, NAME, BODY)                                                       \
  ENTRY(direct_##NAME##_##n) {                                                 \
    Ev e;                                                                      \
    any_event(e);                                                              \
    direct(n, [&](Buf &b) { BODY });                                           \
  }
#define DD(NAME, BODY) D(0, NAME, BODY) D(1, NAME, BODY) D(2, NAME, BODY) D(3, NAME, BODY)
DD(push, b.push(e);)
DD(pull, b.pull(e);)
DD(pop, b.pop(e);)
DD(itself, b = *&b;)
ENTRY(direct_write_other) {
  Ev e;
  any_event(e);
  size_t i = any_slot();
  direct(3, [&](Buf &b) { ASSUME(i != current()->pos); b.write(e, i); });
}
// the event that was pushed last is replaced through the buffer
ENTRY(rewritten) {
  Ev e;
  any_event(e);
  direct(0, [&](Buf &b) { b.write(e, current()->pos); });
}
// a copy has no push to wait for where the original has none
ENTRY(copied) {
  Buf a;
  W v(a);
  Frame e0, e1, e2;
  any_world(a, v, e0, e1, 0);
  ASSUME(!pending());
  Buf b;
  W w(b);
  any_world(b, w, e1, e2, 0);
  in_setup = false;
  b = a;
  vf_reach("the operation returned");
  CHECK(!pending(), "an operation of the buffer itself leaves no push to wait for");
}
