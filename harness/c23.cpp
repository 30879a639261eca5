// duals
#include "fm.h"
// what holds at each slot, whatever it is
static unsigned char at[CAP + 1];
static void visit(XT &r, size_t, timespan &, int) {}
static three_valued_type answer(int) { return T_UNKNOWN; }
struct Psi {
  static three_valued_type eval_phi1(XT &r, timespan &) {
    size_t c = r.get_cursor();
    ASSUME(at[c] <= 2);
    three_valued_type v = (three_valued_type)at[c];
    size_t k = any_slot();
    r.set_cursor(k);
    return v;
  }
  static three_valued_type eval_phi2(XT &r, timespan &t) { return eval_phi1(r, t); }
};
static three_valued_type negation(three_valued_type v) { return v == T_TRUE ? T_FALSE : v == T_FALSE ? T_TRUE : T_UNKNOWN; }
struct TrueUntilNotPsi {
  static three_valued_type eval_phi1(XT &, timespan &) { return T_TRUE; }
  static three_valued_type eval_phi2(XT &r, timespan &t) { return negation(Psi::eval_phi1(r, t)); }
};
#define DUAL(name, one, other, text)                                           \
  ENTRY(name) {                                                                \
    vf_havoc(at, sizeof(at));                                                  \
    FORMULA();                                                                 \
    three_valued_type x = one;                                                 \
    three_valued_type y = other;                                               \
    CHECK(x == y, text);                                                       \
  }
DUAL(always, (always_less<XT, Psi, BND>(r, t)), negation(until_less<XT, TrueUntilNotPsi, BND>(r, t)), "always is the negation of true until not phi")
DUAL(historically, (historically_less<XT, Psi, BND>(r, t)), negation(since_less<XT, TrueUntilNotPsi, BND>(r, t)), "historically is the negation of true since not phi")
DUAL(always_at, (always_equal<XT, Psi, BND>(r, t)), (eventually_equal<XT, Psi, BND>(r, t)), "always-at gives the verdict of eventually-at")
DUAL(historically_at, (historically_equal<XT, Psi, BND>(r, t)), (pasteventually_equal<XT, Psi, BND>(r, t)), "historically-at gives the verdict of past-eventually-at")
