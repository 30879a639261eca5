// conversions and durations
#include "vf.h"
#include "rmtld3/rmtld3.h"
static duration any_duration(long m) {
  timeabs x = vf_range(-m, m);
  bool u = vf_bool();
  return duration(x, u);
}
ENTRY(conversion) {
  three_valued_type a = (three_valued_type)vf_range(0, 2);
  four_valued_type b = b3_to_b4(a);
  three_valued_type c = b4_to_b3(b);
  CHECK(c == a, "converting to four values and back changes nothing");
  CHECK((b4_to_b3(b3_to_b4(a))) == a, "conversions nest");
  CHECK(b != FV_SYMBOL, "no verdict converts to the extra value");
  CHECK((b == FV_TRUE) == (a == T_TRUE) && (b == FV_FALSE) == (a == T_FALSE), "conversion preserves true and false");
  four_valued_type s = FV_SYMBOL;
  three_valued_type u = b4_to_b3(s);
  CHECK(u == T_UNKNOWN, "the extra value is unknown");
}
ENTRY(sum) {
  duration x = any_duration(1L << 60), y = any_duration(1L << 60), z = sum_dur(x, y);
  CHECK(z.first == x.first + y.first, "durations add up");
  CHECK(z.second == (x.second || y.second), "a sum is unknown exactly when either operand is");
}
ENTRY(product) {
  duration x = any_duration(1L << 30), y = any_duration(1L << 30), z = mult_dur(x, y);
  CHECK(z.first == x.first * y.first, "durations multiply");
  CHECK(z.second == (x.second || y.second), "a product is unknown exactly when either operand is");
}
ENTRY(make) {
  timeabs a = vf_range(-(1L << 60), 1L << 60);
  bool u = vf_bool();
  duration d = make_duration(a, u);
  CHECK(d.first == a && d.second == u, "a duration is what it was made of");
}
ENTRY(less) {
  duration x = any_duration(1L << 62), y = any_duration(1L << 62);
  three_valued_type c = b3_lessthan(x, y);
  CHECK((c == T_UNKNOWN) == (x.second || y.second), "a comparison is unknown exactly when either operand is");
  CHECK(c == T_UNKNOWN || (c == T_TRUE) == (x.first < y.first), "a comparison is the strict order");
}
