// evaluation reads only
#include "fm.h"
#include "wait.h"
static void visit(XT &, size_t, timespan &, int) {}
static three_valued_type answer(int) { return any_verdict(); }
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    FORMULA();                                                                 \
    XT other(b);                                                               \
    size_t ob, ot, oc;                                                         \
    any_trace(other, ob, ot, oc);                                              \
    vf_nowrite(&b, sizeof(b), "no evaluation writes the buffer");              \
    vf_nowrite(&other, sizeof(other), "no evaluation writes another reader");  \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
ALL_OPS(OP)
IN_BETWEEN(OP)
