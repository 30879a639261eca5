// no operation waits for anybody: others change whatever they like before every access, for ever
#include "pub.h"
extern "C" int sched_yield() noexcept(true) {
  CHECK(false, "a buffer or reader operation waits for nobody [if called]");
  return 0;
}
static Buf *B;
static Buf::state_t *other; // a frame of another writer
// other writers publish whatever they like
static void on_page(void *, size_t) {
  page_t p = B->page.load();
  int n = vf_choice(3);
  if (n)
    p.stateref = n == 1 ? (NATIVE_POINTER_TYPE)&B->state_global : (NATIVE_POINTER_TYPE)other;
#if !defined(__riscv)
  p.counter = vf_u64();
#endif
  B->page.store(p);
}
static void any_frame(Buf::state_t *f) {
  vf_vrange(&f->top, sizeof(f->top), 0, CAP);
  vf_vrange(&f->bottom, sizeof(f->bottom), 0, CAP);
  vf_vrange(&f->pos, sizeof(f->pos), 0, CAP);
}
static void disturb(Buf &b, W &w, Buf::state_t &of) {
  B = &b;
  other = &of;
  vf_volatile(&of, sizeof(of));
  any_frame(&of);
  vf_volatile(&b, sizeof(b));
  vf_volatile(&w, sizeof(w));
  vf_vrange(&b.size, sizeof(b.size), CAP + 1, CAP + 1);
  vf_vrange(&b.size_util, sizeof(b.size_util), CAP, CAP);
  any_frame((Buf::state_t *)b.page.load().stateref);
  any_frame(&b.state_global);
  vf_cb_load(&b.page, sizeof(b.page), on_page);
  vf_cb_cas(&b.page, sizeof(b.page), on_page);
  vf_opt("liveness", 1);
  vf_opt("unroll", CAP + 20);
  vf_opt("must_terminate", CAP + 4);
}
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top, rb, rt, c, i = vf_u64();                                    \
  publish(b, w, bot, top);                                                     \
  XT r(b);                                                                     \
  any_trace(r, rb, rt, c);                                                     \
  Ev e;                                                                        \
  any_event(e);                                                                \
  timespan t = vf_u64();                                                       \
  (void)i, (void)t, (void)e;                                                   \
  Buf::state_t of;                                                             \
  disturb(b, w, of)
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    SETUP;                                                                     \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
OP(pull, r.Reader::pull(e))
OP(pop, r.pop(e))
OP(sync, r.synchronize())
OP(gap, r.gap())
OP(increment, r.increment_cursor())
OP(decrement, r.decrement_cursor())
OP(set_cursor, r.set_cursor(i))
OP(reset, r.reset())
OP(set, r.set(t))
OP(tpull, r.pull(e))
OP(read, (r.read(e), r.read_next(e), r.read_previous(e)))
OP(length, (r.Reader::length(), r.length(), r.consumed()))
OP(debug, (r.Reader::debug(), r.debug()))
OP(attach, (XT(b).get_cursor()))
OP(bpush, b.push(e))
OP(bpull, b.pull(e))
OP(bpop, b.pop(e))
OP(bread, b.read(e, i))
OP(bwrite, b.write(e, i))
OP(bstate, (b.state(rb, rt)))
OP(bstate4, (b.state(rb, rt, (timespanw &)t, (timespanw &)t)))
OP(blength, b.length())
OP(bdebug, b.debug())
ENTRY(bassign) {
  SETUP;
  Buf d;
  d = b;
  vf_reach("bassign");
}
