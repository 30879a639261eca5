// point-wise eventually, past eventually and since
#include "fm.h"
static bool any, have[2], since;
static int dir;
static three_valued_type val[2];
static bool decided() { return !(have[1] && val[1] == T_FALSE && have[0] && val[0] == T_TRUE); }
static bool too_old(timespan x) { return T0 >= BND && x <= T0 - BND; }
static void visit(XT &r, size_t c, timespan &t, int) {
  if (any && c == cur)
    return;
  if (dir > 0) {
    CHECK(c == nxt, "eventually-at goes through successive events from the cursor on");
    CHECK(c != RT, "eventually-at stays inside the window");
    CHECK(t <= T0 + BND, "eventually-at looks only at events up to its bound");
  } else {
    // events of the evaluation instant itself are passed over
#ifdef ONCE
    CHECK(c == nxt && (c == C0 || cur != RB), "past operators go backwards from the cursor inside the window");
#else
    CHECK(ring_off(RB, c) < (any ? ring_off(RB, cur) : ring_off(RB, C0) + 1), "past operators go backwards from the cursor inside the window");
#endif
    CHECK(t != T0, "past operators pass over the evaluation instant");
    CHECK(!too_old(t), "past operators look only at events within their bound");
    if (nxt != c)
      CHECK(time_at(nxt) == T0, "past operators pass over nothing but the evaluation instant");
    if (since)
      CHECK(!any || !decided(), "since stops at the first event that decides");
  }
  any = true;
  if (dir > 0)
    went(c, ring_next(c));
  else
    went_back(c, ring_prev(c));
  have[0] = have[1] = false;
}
static three_valued_type answer(int which) {
  if (!have[which]) {
#ifdef LONG
    val[which] = which ? T_FALSE : T_TRUE;
#else
    val[which] = any_verdict();
#endif
    have[which] = true;
  }
  return val[which];
}
#ifdef ONCE
// no event but the first has the evaluation time
static bool moved_on;
static void known(Ev &e, size_t i) {
  if (i != C0) {
    ASSUME(e.getTime() != T0);
    moved_on = true;
  }
}
#endif
static void start() {
  any = have[0] = have[1] = false;
  if (dir > 0)
    went(C0, C0);
  else {
    went_back(C0, C0);
#ifdef ONCE
    moved_on = false;
    if (time_at(C0) == T0)
      went_back(C0, ring_prev(C0));
#endif
  }
}
ENTRY(eventually_at) {
  dir = 1;
  FORMULA(ON_EVENT);
  start();
  three_valued_type v = eventually_equal<XT, Phi, BND>(r, t);
  CHECK(v == (any ? val[0] : T_UNKNOWN), "eventually-at gives the verdict of the last event evaluated");
  CHECK(nxt == RT || time_at(nxt) > T0 + BND, "eventually-at goes on to its bound");
}
static void past_end() {
  // the next older event ends the walk, or there is none, or it is of the evaluation instant
  if (nxt == C0 && !any || cur != RB) {
    timespan x = time_at(nxt);
    // (what is before all time may or may not be looked at)
    CHECK(too_old(x) || x == T0 || x < 0, "past operators go on to their bound");
  }
}
ENTRY(past_eventually_at) {
  dir = -1;
  FORMULA(ON_EVENT);
  start();
  three_valued_type v = pasteventually_equal<XT, Phi, BND>(r, t);
  CHECK(v == (any ? val[0] : T_UNKNOWN), "past-eventually-at gives the verdict of the last event evaluated");
  past_end();
}
ENTRY(since) {
  dir = -1;
  since = true;
  FORMULA(ON_EVENT);
  start();
  three_valued_type v = since_less<XT, Phi, BND>(r, t);
  if (any && decided()) {
    CHECK(have[1], "an event decides only once the second subformula is known");
    if (val[1] != T_FALSE)
      CHECK(v == val[1], "the verdict of since is the second subformula where it is not false");
    else
      CHECK(have[0] && v == val[0], "the verdict of since is the first subformula where it is not true");
  } else {
    past_end();
    CHECK(v != T_TRUE, "since is not true when no event decides");
  }
}
