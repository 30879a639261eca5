// unbounded eventually
#include "fm.h"
static bool any;
static three_valued_type val;
static void visit(XT &r, size_t c, timespan &t, int) {
  if (any && c == cur)
    return;
  CHECK(c == nxt, "eventually goes through successive events from the cursor on");
  CHECK(!any || val == T_FALSE, "eventually stops at the first event that is not false");
  CHECK(c != RT, "eventually stays inside the window");
  any = true;
  went(c, ring_next(c));
#ifdef LONG
  val = T_FALSE;
#else
  val = any_verdict();
#endif
}
static three_valued_type answer(int) { return val; }
ENTRY(eventually) {
  FORMULA(ON_EVENT);
  went(C0, C0);
  three_valued_type v = eventually_less_unbounded<XT, Phi>(r, t);
  CHECK(any && v == val, "the verdict is that of the last event evaluated");
  CHECK(v != T_FALSE || nxt == RT, "eventually is false only after the last event of the window");
}
