// what an evaluation may write: its own locals and the cursor
#include "fm.h"
static void visit(XT &, size_t, timespan &, int) {}
static three_valued_type answer(int) { return any_verdict(); }
static void freeze(Buf &b, XT &r, timespan &t) {
  char *c = (char *)&r.get_cursor(), *a = (char *)&r;
  size_t before = c - a, after = sizeof(r) - before - sizeof(size_t);
  if (before)
    vf_nowrite(a, before, "no evaluation changes the reader's window, time or buffer");
  if (after)
    vf_nowrite(c + sizeof(size_t), after, "no evaluation changes the reader's window, time or buffer");
  vf_nowrite(&t, sizeof(t), "no evaluation changes the caller's evaluation time");
  vf_nowrite(&b, sizeof(b), "no evaluation changes the buffer");
  vf_opt("noglobals", 1);
}
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    FORMULA();                                                                 \
    freeze(b, r, t);                                                           \
    call;                                                                      \
    CHECK(t == T0, "the evaluation time is the caller's");                     \
  }
ALL_OPS(OP)
IN_BETWEEN(OP)
