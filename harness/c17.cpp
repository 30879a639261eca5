// positioning the cursor
#define KNOWN
#include "fm.h"
static void visit(XT &, size_t, timespan &, int) {}
static three_valued_type answer(int) { return T_UNKNOWN; }
#ifdef LONG
// a window as long as the ring allows, the active event at the other end of it
static size_t K0;
static void known(Ev &e, size_t i) {
  ASSUME(e.getTime() >= 0);
  if (ring_off(RB, i) <= ring_off(RB, K0))
    ASSUME(e.getTime() <= T0);
  else
    ASSUME(e.getTime() > T0);
}
ENTRY(finds_far) {
  FORMULA();
  K0 = LONG > 0 ? 2 : 5;
  CHECK(r.set(t) == Trace::AVAILABLE, "positioning finds an event active at the instant anywhere in the window");
  CHECK(r.get_cursor() == K0, "the event found anywhere in the window is the one active");
}
#else
ENTRY(set) {
  FORMULA();
  ASSUME(ring_off(RB, C0) <= ring_len(RB, RT));
#if UNROLL
  vf_opt("must_terminate", CAP + 3);
#endif
  Trace::error_t x = r.set(t);
  size_t c = r.get_cursor();
  CHECK(ring_off(RB, c) <= ring_len(RB, RT), "positioning keeps the cursor inside the window");
  CHECK(r.b() == RB && r.t() == RT, "positioning keeps the window");
  if (x == Trace::AVAILABLE) {
    CHECK(ring_len(c, RT) >= 2, "the event found has a successor in the window");
    CHECK(time_at(c) <= T0, "the event found is not after the instant");
    CHECK(time_at(ring_next(c)) > T0, "the successor of the event found is after the instant");
  }
  CHECK(t == T0, "positioning leaves the instant alone");
}
ENTRY(finds) {
  FORMULA();
  ASSUME(ring_off(RB, C0) <= ring_len(RB, RT));
  size_t k = any_slot();
  ASSUME(ring_off(RB, k) + 2 <= ring_len(RB, RT) && time_at(k) <= T0 && T0 < time_at(ring_next(k)));
  CHECK(r.set(t) == Trace::AVAILABLE, "positioning finds an event active at the instant if the window holds one");
}
#endif
