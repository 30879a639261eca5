// durations
#include "fm.h"
static unsigned char at[CAP + 1];
static void visit(XT &r, size_t, timespan &, int) {}
static three_valued_type answer(int) { return T_UNKNOWN; }
struct Psi {
  static three_valued_type eval_phi1(XT &r, timespan &) {
    size_t c = r.get_cursor();
    ASSUME(at[c] <= 2);
    three_valued_type v = (three_valued_type)at[c];
    if (wander) {
      size_t k = any_slot();
      r.set_cursor(k);
    }
    return v;
  }
};
ENTRY(duration) {
  vf_havoc(at, sizeof(at));
  FORMULA(ON_EVENT);
  // times never decrease along the window
  ASSUME(time_at(C0) >= 0);
#ifdef LONG
  // no event has the time of another, and the subformula holds on all of them
  for (size_t k = C0, n = ring_next(C0); n != RT; k = n, n = ring_next(n))
    ASSUME(time_at(k) < time_at(n) && time_at(k) >= T0 && time_at(n) < T0 + BND);
  for (size_t k = 0; k <= CAP; k++)
    at[k] = T_TRUE;
#endif
  for (size_t k = C0, n = ring_next(C0); n != RT; k = n, n = ring_next(n))
    ASSUME(time_at(k) <= time_at(n) && time_at(n) <= FAR);
  duration d = duration_term<XT, Psi, BND>(r, t);
  timespan end = T0 + BND, sum = 0, last = time_at(C0);
  bool unknown = false;
  for (size_t k = C0, n = ring_next(C0); n != RT; k = n, n = ring_next(n)) {
    timespan x = time_at(k), y = time_at(n);
    timespan lower = x < T0 ? T0 : x, upper = y < end ? y : end;
    last = y;
    if (lower < upper) {
      if (at[k] == T_TRUE)
        sum += upper - lower;
      else if (at[k] != T_FALSE)
        unknown = true;
    }
  }
  CHECK(d.first == sum, "a duration is the time inside the interval on which the subformula holds");
  CHECK(d.first >= 0 && d.first <= BND, "a duration lies between zero and the length of its interval");
  CHECK(!unknown || d.second, "a duration is unknown when the subformula is on a stretch of the interval");
  CHECK(!(last < end) || d.second, "a duration is unknown when the window ends before the interval");
  CHECK(d.second <= (unknown || last <= end), "a duration is known when the whole interval is");
}
