// bounded until
#include "fm.h"
static bool any, have[2];
static three_valued_type val[2];
static bool decided() { return !(have[1] && val[1] == T_FALSE && have[0] && val[0] == T_TRUE); }
static void visit(XT &r, size_t c, timespan &t, int) {
  if (any && c == cur)
    return;
  CHECK(c == nxt, "until goes through successive events from the cursor on");
  CHECK(!any || !decided(), "until stops at the first event that decides");
  CHECK(c != RT, "until stays inside the window");
  CHECK(t < T0 + BND, "until looks only at events earlier than its bound");
  any = true;
  went(c, ring_next(c));
  have[0] = have[1] = false;
}
static three_valued_type answer(int which) {
  if (!have[which]) {
#ifdef LONG
    val[which] = which ? T_FALSE : T_TRUE;
#else
    val[which] = any_verdict();
#endif
    have[which] = true;
  }
  return val[which];
}
ENTRY(until) {
  FORMULA(ON_EVENT);
  any = have[0] = have[1] = false;
  went(C0, C0);
  three_valued_type v = until_less<XT, Phi, BND>(r, t);
  if (any && decided()) {
    CHECK(have[1], "an event decides only once the second subformula is known");
    if (val[1] != T_FALSE)
      CHECK(v == val[1], "the verdict is the second subformula where it is not false");
    else
      CHECK(have[0] && v == val[0], "the verdict is the first subformula where it is not true");
  } else {
    if (nxt == RT)
      CHECK(v == T_UNKNOWN, "until is unknown when the window ends before the bound");
    else {
      CHECK(time_at(nxt) >= T0 + BND, "until goes on until an event decides or the bound is reached");
      CHECK(v == T_FALSE, "until is false when nothing decides before the bound");
    }
  }
}
