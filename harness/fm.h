// Temporal operators on any window, with subformulas that answer anything and leave the cursor anywhere.
#ifndef VF_FM_H
#define VF_FM_H
#include "rd.h"
#include "rmtld3/rmtld3.h"
#ifdef FDEBUG
// what the formulas would print is computed, and dropped
extern "C" void vf_sink(int, ...);
#undef DEBUGV_RMTLD3
#undef DEBUG_RMTLD3
#define DEBUGV_RMTLD3(f, ...) vf_sink(0, f, ##__VA_ARGS__)
#define DEBUG_RMTLD3(f, ...) vf_sink(0, f, ##__VA_ARGS__)
#endif
#include "rmtld3/formulas.h"
#include "rmtld3/terms.h"
#ifndef BND
#define BND 10
#endif
#define FAR (1L << 60)
#ifndef UNROLL
#define UNROLL 50
#endif
static timespan T0;         // the evaluation time
static size_t C0, RB, RT;   // cursor and window on entry
// the window can be as long as the ring allows,
#ifdef LONG
#define START BND
#define LIMIT ASSUME(RB == 5 && RT == 4 && C0 == (LONG > 0 ? 5 : 3))
#ifndef KNOWN
static void known(Ev &e, size_t) {
  if (LONG > 0)
    ASSUME(e.getTime() >= T0 && e.getTime() < T0 + BND);
  else
    ASSUME(e.getTime() > T0 - BND && e.getTime() < T0);
}
#endif
// or limited where the ring is too large to unroll
#elif defined(WIN)
#define LIMIT ASSUME(ring_len(RB, RT) <= WIN)
#else
#define LIMIT
#endif
#ifndef START
#define START 0
#endif
static Buf *buf;
// the event evaluated last and the one expected next, and where those lie on the ring: what is merged at the head of
// a loop stays apart by that
static size_t cur, nxt;
static int side, from;
static inline void went(size_t c, size_t n) {
  cur = c;
  nxt = n;
  side = n < c ? 2 : n > RT;
  from = C0 > RT;
}
static inline void went_back(size_t c, size_t n) {
  cur = c;
  nxt = n;
  side = n > c ? 2 : n < RB;
  from = C0 < RB;
}
// what a property wants to know about an evaluation
static void visit(XT &r, size_t c, timespan &t, int which);
static three_valued_type answer(int which);
#ifdef LONG
static bool wander = false;
#else
static bool wander = true;
#endif
static three_valued_type phi(XT &r, timespan &t, int which) {
  visit(r, r.get_cursor(), t, which);
  three_valued_type v = answer(which);
  if (wander) {
    size_t k = any_slot();
    r.set_cursor(k);
  }
  return v;
}
static inline three_valued_type any_verdict() {
  return (three_valued_type)vf_range(0, 2);
}
struct Phi {
  static three_valued_type eval_phi1(XT &r, timespan &t) { return phi(r, t, 0); }
  static three_valued_type eval_phi2(XT &r, timespan &t) { return phi(r, t, 1); }
};
static inline timespan time_at(size_t i) {
  Ev e;
  buf->read(e, i);
  return e.getTime();
}
#define FORMULA(SETUP_DONE)                                                    \
  Known b;                                                                      \
  size_t bot, top;                                                             \
  any_state(b, bot, top);                                                      \
  XT r(b);                                                                     \
  any_trace(r, RB, RT, C0);                                                    \
  LIMIT;                                                                       \
  timespan t = vf_range(START, FAR);                                            \
  T0 = t;                                                                      \
  buf = &b;                                                                    \
  vf_opt("unroll", UNROLL);                                                    \
  vf_opt("nodet", UNROLL == 0);                                                \
  SETUP_DONE
// on an event of the window
#define ON_EVENT ASSUME(ring_off(RB, C0) < ring_len(RB, RT))
#define ALL_OPS(X)                                                             \
  X(until, (until_less<XT, Phi, BND>(r, t)))                                   \
  X(eventually_at, (eventually_equal<XT, Phi, BND>(r, t)))                     \
  X(eventually_unbounded, (eventually_less_unbounded<XT, Phi>(r, t)))          \
  X(always_at, (always_equal<XT, Phi, BND>(r, t)))                             \
  X(always, (always_less<XT, Phi, BND>(r, t)))                                 \
  X(since, (since_less<XT, Phi, BND>(r, t)))                                   \
  X(past_eventually_at, (pasteventually_equal<XT, Phi, BND>(r, t)))            \
  X(historically_at, (historically_equal<XT, Phi, BND>(r, t)))                 \
  X(historically, (historically_less<XT, Phi, BND>(r, t)))                     \
  X(duration, (duration_term<XT, Phi, BND>(r, t)))                             \
  X(proposition, (prop<XT>(r, vf_u32(), t)))
#define IN_BETWEEN(X) X(until_in_between, (until_less<XT, Phi, BND, int>(r, t)))
#endif
