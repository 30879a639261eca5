// events
#include "vf.h"
#include "event.h"
#ifndef DATA
#define DATA int
#endif
typedef Event<DATA> Ev;
struct Any {
  DATA d;
  timespan t;
};
static Any any() {
  Any x;
  vf_havoc(&x, sizeof(x));
  return x;
}
ENTRY(equality) {
  Any x = any(), y = any();
  const Ev a(x.d, x.t), b(y.d, y.t);
  bool same = x.d == y.d && x.t == y.t;
  CHECK((a == b) == same, "events are equal exactly when data and time are");
  CHECK((a != b) == !same, "events are different exactly when they are not equal");
  CHECK((b == a) == same && a == a && !(a != a), "equality is symmetric and reflexive");
}
ENTRY(order) {
  Any x = any(), y = any();
  const Ev a(x.d, x.t), b(y.d, y.t);
  CHECK((a < b) == (x.t < y.t), "events are ordered by time: <");
  CHECK((a <= b) == (x.t <= y.t), "events are ordered by time: <=");
  CHECK((a > b) == (x.t > y.t), "events are ordered by time: >");
  CHECK((a >= b) == (x.t >= y.t), "events are ordered by time: >=");
}
ENTRY(order_time) {
  Any x = any(), y = any();
  const Ev a(x.d, x.t);
  const timespan t = y.t;
  CHECK((a < t) == (x.t < t), "an event compares to a time by its own: <");
  CHECK((a <= t) == (x.t <= t), "an event compares to a time by its own: <=");
  CHECK((a > t) == (x.t > t), "an event compares to a time by its own: >");
  CHECK((a >= t) == (x.t >= t), "an event compares to a time by its own: >=");
  CHECK((a == t) == (x.t == t), "an event compares to a time by its own: ==");
  CHECK((a != t) == (x.t != t), "an event compares to a time by its own: !=");
  CHECK((t < a) == (t < x.t), "a time compares to an event: <");
  CHECK((t <= a) == (t <= x.t), "a time compares to an event: <=");
  CHECK((t > a) == (t > x.t), "a time compares to an event: >");
  CHECK((t >= a) == (t >= x.t), "a time compares to an event: >=");
  CHECK((t == a) == (t == x.t), "a time compares to an event: ==");
  CHECK((t != a) == (t != x.t), "a time compares to an event: !=");
}
ENTRY(construct) {
  Any x = any(), y = any();
  const Any x0 = x;
  Ev z;
  CHECK(z.getTime() == 0 && z.getData() == DATA(), "an event made of nothing holds nothing");
  Ev a(x.d, x.t);
  CHECK(a.getData() == x0.d && a.getTime() == x0.t, "an event holds what it was made of");
  CHECK(x.d == x0.d && x.t == x0.t, "making an event leaves the arguments alone");
}
ENTRY(setters) {
  Any x = any(), y = any(), z = y;
  Ev a(x.d, x.t);
  int n = vf_choice(3);
  if (n == 0) {
    a.set(y.d, y.t);
    CHECK(a.getData() == z.d && a.getTime() == z.t, "set stores data and time");
  } else if (n == 1) {
    a.setTime(y.t);
    CHECK(a.getData() == x.d && a.getTime() == z.t, "setTime stores the time and nothing else");
  } else {
    a.setData(y.d);
    CHECK(a.getData() == z.d && a.getTime() == x.t, "setData stores the data and nothing else");
  }
  CHECK(y.d == z.d && y.t == z.t, "setters leave their arguments alone");
}
ENTRY(copy) {
  Any x = any(), y = any();
  const Ev a(x.d, x.t);
  Ev b(y.d, y.t), c(y.d, y.t), d(a);
  b = a;
  c = &a;
  CHECK(b.getData() == x.d && b.getTime() == x.t, "assignment copies data and time");
  CHECK(c.getData() == x.d && c.getTime() == x.t, "assignment from a pointer copies data and time");
  CHECK(d.getData() == x.d && d.getTime() == x.t, "construction from an event copies data and time");
  CHECK(a.getData() == x.d && a.getTime() == x.t, "copying leaves the source alone");
  b = b;
  CHECK(b.getData() == x.d && b.getTime() == x.t, "self assignment changes nothing");
}
