// every loop makes progress: no more rounds than the ring has slots, even when the slots change meanwhile
#include "fm.h"
static void visit(XT &, size_t, timespan &, int) {}
static three_valued_type answer(int) { return any_verdict(); }
static void unstable(Buf &b) {
#ifdef UNSTABLE
  vf_volatile(&b, sizeof(b));
  vf_vrange(&b.size, sizeof(b.size), CAP + 1, CAP + 1);
  vf_vrange(&b.size_util, sizeof(b.size_util), CAP, CAP);
#endif
  vf_opt("must_terminate", CAP + 3);
}
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    FORMULA();                                                                 \
    unstable(b);                                                               \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
ALL_OPS(OP)
IN_BETWEEN(OP)
OP(set, r.set(t))
