// positions under interference: every slot, and every position a published state reports, may change at any moment
#include "pub.h"
#include "wait.h"
static Buf *B;
// other writers publish whatever they like
static void on_page(void *, size_t) {
  if (!vf_bool())
    return;
  page_t p = B->page.load();
  if (vf_bool())
    p.stateref = (NATIVE_POINTER_TYPE)&B->state_global;
#if !defined(__riscv)
  p.counter = vf_u64();
#endif
  B->page.store(p);
}
static void any_frame(Buf::state_t *f) {
  vf_vrange(&f->top, sizeof(f->top), 0, CAP);
  vf_vrange(&f->bottom, sizeof(f->bottom), 0, CAP);
  vf_vrange(&f->pos, sizeof(f->pos), 0, CAP);
}
static void disturb(Buf &b, W &w) {
  B = &b;
  vf_volatile(&b, sizeof(b));
  vf_volatile(&w, sizeof(w));
  vf_vrange(&b.size, sizeof(b.size), CAP + 1, CAP + 1);
  vf_vrange(&b.size_util, sizeof(b.size_util), CAP, CAP);
  any_frame((Buf::state_t *)b.page.load().stateref);
  any_frame(&b.state_global);
  vf_cb_load(&b.page, sizeof(b.page), on_page);
  vf_opt("oob", 1);
}
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top, rb, rt, c, i = vf_u64();                                    \
  publish(b, w, bot, top);                                                     \
  XT r(b);                                                                     \
  any_trace(r, rb, rt, c);                                                     \
  Ev e;                                                                        \
  any_event(e);                                                                \
  timespan t = vf_u64();                                                       \
  (void)i, (void)t, (void)e;                                                   \
    disturb(b, w)
#define INSIDE                                                                 \
  CHECK(r.t() <= CAP && r.b() <= CAP, "the ends of the window stay slots of the ring");                                        \
  CHECK(r.get_cursor() <= CAP, "the cursor stays a slot of the ring")
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    SETUP;                                                                     \
    call;                                                                      \
    INSIDE;                                                                    \
  }
OP(pull, r.Reader::pull(e))
OP(pop, r.pop(e))
OP(sync, r.synchronize())
OP(gap, r.gap())
OP(increment, r.increment_cursor())
OP(decrement, r.decrement_cursor())
OP(set_cursor, r.set_cursor(i))
OP(reset, r.reset())
OP(set, (vf_opt("unroll", 0), r.set(t)))
OP(tpull, r.pull(e))
OP(read, (r.read(e), r.read_next(e), r.read_previous(e)))
OP(length, (r.Reader::length(), r.length(), r.consumed()))
ENTRY(attach) {
  Buf b;
  W w(b);
  size_t bot, top;
  publish(b, w, bot, top);
      disturb(b, w);
  XT r(b);
  INSIDE;
  r.synchronize();
  r.reset();
  INSIDE;
}
// an event comes from the window
static void *slot;
static size_t slot_size;
static void on_slot(void *p, size_t n) {
  if (slot || p == (void *)&B->size || p == (void *)&B->size_util)
    return;
  slot = p;
  slot_size = n;
}
static void window(bool pop) {
  Buf b;
  W w(b);
  size_t bot, top, rb, rt, k = any_slot();
  publish(b, w, bot, top);
  XR r(b);
  any_reader(r, rb, rt);
  size_t n = ring_len(rb, rt);
  ASSUME(n >= (pop ? 1 : 2));
  ASSUME(ring_off(rb, k) >= n);
  Ev e, other;
  // where slot k is
  slot = 0;
  B = &b;
  vf_cb_load(&b, sizeof(b), on_slot);
  b.read(other, k);
  vf_unwatch_all();
  vf_noaccess(slot, slot_size, "an event is only ever taken from the window the reader had");
  if (pop)
    r.pop(e);
  else
    r.pull(e);
  vf_reach("taken from the window");
}
ENTRY(window_pop) { window(true); }
ENTRY(window_pull) { window(false); }
