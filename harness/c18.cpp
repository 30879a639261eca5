// the cursor on entry, in subformulas and on return
#include "fm.h"
static int last = -1;
static size_t last_c;
static timespan last_t;
static void visit(XT &r, size_t c, timespan &t, int which) {
  CHECK(c <= CAP && time_at(c) == t, "each subformula is evaluated with the cursor on the event whose time it is given");
  if (last == 1 - which && last_t == t) {
    CHECK(last_c == c, "sibling subformulas of the same instant start from the same cursor");
    last = -1;
  } else
    last = which;
  last_c = c;
  last_t = t;
}
static three_valued_type answer(int) { return any_verdict(); }
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    FORMULA();                                                                                                          \
    call;                                                                      \
    CHECK(r.get_cursor() == C0, "the cursor is back where it was on entry");   \
  }
ALL_OPS(OP)
