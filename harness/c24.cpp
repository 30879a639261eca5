// propositions
#include "fm.h"
static void visit(XT &, size_t, timespan &, int) {}
static three_valued_type answer(int) { return T_UNKNOWN; }
ENTRY(proposition) {
  FORMULA();
  ASSUME(ring_off(RB, C0) <= ring_len(RB, RT));
  proposition p = vf_u32();
  bool active = ring_len(C0, RT) >= 2 && time_at(C0) <= T0 && time_at(ring_next(C0)) > T0;
  Ev e;
  b.read(e, C0);
  bool equal = e.getData() == p;
  three_valued_type v = prop<XT>(r, p, t);
  CHECK(active || v == T_UNKNOWN, "a proposition is unknown unless the event under the cursor is the active one");
  CHECK(!active || v == (equal ? T_TRUE : T_FALSE), "a proposition is decided by the data of the active event");
}
