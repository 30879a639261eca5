// times
#include "vf.h"
#include "clock.h"
#include <sys/types.h>
#include "event.h"
#define G 1000000000L
typedef struct timespec TS;
static TS any_time() {
  TS t;
  t.tv_sec = vf_range(-4600000000L, 4600000000L);
  t.tv_nsec = vf_range(0, G - 1);
  return t;
}
static long ns(const TS &t) { return t.tv_sec * G + t.tv_nsec; }
static bool normal(const TS &t) { return t.tv_nsec >= 0 && t.tv_nsec < G; }
ENTRY(add) {
  TS a = any_time(), b = any_time(), r;
  long x = ns(a), y = ns(b);
  int n = vf_choice(3);
  if (n == 0) {
    timespecadd(&a, &b, &r);
    CHECK(ns(a) == x && ns(b) == y, "adding leaves the operands alone");
  } else if (n == 1) {
    timespecadd(&a, &b, &a);
    r = a;
    CHECK(ns(b) == y, "adding leaves the other operand alone");
  } else {
    timespecadd(&a, &b, &b);
    r = b;
    CHECK(ns(a) == x, "adding leaves the other operand alone");
  }
  CHECK(normal(r), "a sum is normalised");
  CHECK(ns(r) == x + y, "a sum is exact");
}
ENTRY(add_self) {
  TS a = any_time();
  long x = ns(a);
  timespecadd(&a, &a, &a);
  CHECK(normal(a) && ns(a) == x + x, "a time can be added to itself");
}
ENTRY(subtract) {
  TS a = any_time(), b = any_time(), r;
  long x = ns(a), y = ns(b);
  int n = vf_choice(3);
  if (n == 0) {
    timespecsub(&a, &b, &r);
    CHECK(ns(a) == x && ns(b) == y, "subtracting leaves the operands alone");
  } else if (n == 1) {
    timespecsub(&a, &b, &a);
    r = a;
    CHECK(ns(b) == y, "subtracting leaves the other operand alone");
  } else {
    timespecsub(&a, &b, &b);
    r = b;
    CHECK(ns(a) == x, "subtracting leaves the other operand alone");
  }
  CHECK(normal(r), "a difference is normalised");
  CHECK(ns(r) == x - y, "a difference is exact");
}
ENTRY(compare) {
  TS a = any_time(), b = any_time();
  bool less = a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec);
  bool same = a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec;
  CHECK((timespeccmp(&a, &b, <)) == less, "times are ordered by seconds, then nanoseconds: <");
  CHECK((timespeccmp(&a, &b, <=)) == (less || same), "times are ordered by seconds, then nanoseconds: <=");
  CHECK((timespeccmp(&a, &b, >)) == !(less || same), "times are ordered by seconds, then nanoseconds: >");
  CHECK((timespeccmp(&a, &b, >=)) == !less, "times are ordered by seconds, then nanoseconds: >=");
  CHECK((timespeccmp(&a, &b, ==)) == same, "times are ordered by seconds, then nanoseconds: ==");
  CHECK((timespeccmp(&a, &b, !=)) == !same, "times are ordered by seconds, then nanoseconds: !=");
}
ENTRY(clear) {
  TS a = any_time();
  CHECK((timespecisset(&a)) == (a.tv_sec != 0 || a.tv_nsec != 0), "a time is set exactly when it is not zero");
  timespecclear(&a);
  CHECK(a.tv_sec == 0 && a.tv_nsec == 0, "a cleared time is zero");
}
ENTRY(period) {
  useconds_t p = vf_u32();
  const useconds_t q = p;
  TS r;
  useconds_t2timespec(&p, &r);
  CHECK(normal(r), "a period is normalised");
  CHECK(ns(r) == (long)q * 1000, "a period converts exactly");
  CHECK(p == q, "converting leaves the period alone");
}
ENTRY(clock) {
  uint64_t now = clockgettime();
  CHECK(clock_reads == 1, "one reading of the clock is one reading");
  CHECK(now == clock_value, "the clock value is seconds times 10^9 plus nanoseconds");
  timeabs kept = now;
  CHECK((uint64_t)kept == clock_value, "an absolute time holds any value of the clock");
}
