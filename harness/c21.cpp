// connectives
#include "vf.h"
#include "rmtld3/rmtld3.h"
typedef three_valued_type B3;
static B3 any3() { return (B3)vf_range(0, 2); }
static B3 k_or(B3 a, B3 b) {
  if (a == T_TRUE || b == T_TRUE)
    return T_TRUE;
  if (a == T_FALSE && b == T_FALSE)
    return T_FALSE;
  return T_UNKNOWN;
}
static B3 k_not(B3 a) {
  if (a == T_TRUE)
    return T_FALSE;
  if (a == T_FALSE)
    return T_TRUE;
  return T_UNKNOWN;
}
static B3 k_and(B3 a, B3 b) { return k_not(k_or(k_not(a), k_not(b))); }
static B3 k_less(const duration &a, const duration &b) {
  if (a.second || b.second)
    return T_UNKNOWN;
  return a.first < b.first ? T_TRUE : T_FALSE;
}
static duration any_duration() {
  timeabs x = vf_range(-(1L << 60), 1L << 60);
  bool u = vf_bool();
  return duration(x, u);
}
ENTRY(tables) {
  B3 a = any3(), b = any3();
  CHECK((b3_or(a, b)) == k_or(a, b), "or is strong Kleene disjunction");
  CHECK((b3_and(a, b)) == k_and(a, b), "and is strong Kleene conjunction");
  CHECK((b3_not(a)) == k_not(a), "not is strong Kleene negation");
  B3 c = b3_or(a, b), d = b3_and(a, b), e = b3_not(a);
  CHECK(c == k_or(a, b) && d == k_and(a, b) && e == k_not(a), "the value of a connective is a verdict");
}
ENTRY(durations) {
  duration x = any_duration(), y = any_duration();
  B3 c = b3_lessthan(x, y);
  CHECK(c == k_less(x, y), "comparison of durations is strict and unknown when either is");
}
ENTRY(nested) {
  B3 a = any3(), b = any3(), c = any3();
  CHECK((b3_or(b3_and(a, b), b3_not(c))) == k_or(k_and(a, b), k_not(c)), "connectives nest as arguments");
  CHECK((b3_and(b3_or(a, b), b3_or(b, c))) == k_and(k_or(a, b), k_or(b, c)), "connectives nest as arguments");
  CHECK((b3_not(b3_or(a, b3_not(b)))) == k_not(k_or(a, k_not(b))), "connectives nest as arguments");
  CHECK((b3_and(b3_not(a), b3_not(b3_not(b)))) == k_and(k_not(a), b), "connectives nest as arguments");
  CHECK((b3_or(b3_or(a, b), c)) == k_or(k_or(a, b), c), "connectives nest as arguments");
  CHECK((b3_and(a, b3_and(b, c))) == k_and(a, k_and(b, c)), "connectives nest as arguments");
}
ENTRY(nested_durations) {
  B3 a = any3();
  duration x = any_duration(), y = any_duration();
  CHECK((b3_or(b3_lessthan(x, y), a)) == k_or(k_less(x, y), a), "comparisons nest as arguments");
  CHECK((b3_not(b3_lessthan(x, y))) == k_not(k_less(x, y)), "comparisons nest as arguments");
  CHECK((b3_lessthan(sum_dur(x, y), make_duration(5, false))) == k_less(sum_dur(x, y), duration(5, false)), "comparisons take any duration expression");
}
ENTRY(embedded) {
  B3 a = any3(), b = any3();
  bool p = vf_bool(), q = vf_bool();
  CHECK((b3_or(a, b) == T_TRUE) == (k_or(a, b) == T_TRUE), "a connective can be compared");
  CHECK((T_TRUE == b3_or(a, b)) == (k_or(a, b) == T_TRUE), "a connective can be compared");
  CHECK((b3_and(a, b) == T_FALSE && p) == (k_and(a, b) == T_FALSE && p), "a connective can be part of a condition");
  CHECK((p || b3_not(a) != T_TRUE) == (p || k_not(a) != T_TRUE), "a connective can be part of a condition");
  CHECK((b3_not(a) == b) == (k_not(a) == b), "a connective can be compared");
  CHECK((p ? b3_or(a, b) : b3_and(a, b)) == (p ? k_or(a, b) : k_and(a, b)), "a connective can be a branch of a conditional");
  CHECK(((b3_not(a)) + 1) == ((int)k_not(a) + 1), "a connective can be an operand");
  CHECK((1 + b3_or(a, b)) == ((int)k_or(a, b) + 1), "a connective can be an operand");
}
ENTRY(arguments) {
  B3 a = any3(), b = any3();
  bool p = vf_bool(), q = vf_bool();
  B3 pa = p ? a : b, qb = q ? b : a;
  CHECK((b3_or(p ? a : b, q ? b : a)) == k_or(pa, qb), "arguments can be any expression");
  CHECK((b3_and(p ? a : b, q ? b : a)) == k_and(pa, qb), "arguments can be any expression");
  CHECK((b3_not(p ? a : b)) == k_not(pa), "arguments can be any expression");
  duration x = any_duration(), y = any_duration();
  duration px = p ? x : y, qy = q ? y : x;
  CHECK((b3_lessthan(p ? x : y, q ? y : x)) == k_less(px, qy), "arguments can be any expression");
}
