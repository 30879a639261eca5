// reading is invisible
#include "pub.h"
#include "wait.h"
static void quiet(Buf &b, W &w, XT &other) {
  vf_nowrite(&b, sizeof(b), "no reader operation writes the buffer");
  vf_nowrite(&w, sizeof(w), "no reader operation writes the published state");
  vf_nowrite(&other, sizeof(other), "no reader operation writes another reader");
}
#define OP(name, call)                                                         \
  ENTRY(name) {                                                                \
    Buf b;                                                                     \
    W w(b);                                                                    \
    size_t bot, top, rb, rt, c, i = vf_u64();                                  \
    publish(b, w, bot, top);                                                   \
    XT r(b), other(b);                                                         \
    any_trace(r, rb, rt, c);                                                   \
    any_trace(other, rb, rt, c);                                               \
    Ev e;                                                                      \
    any_event(e);                                                              \
    timespan t = vf_u64();                                                     \
    (void)i, (void)t;                                                          \
    quiet(b, w, other);                                                        \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
OP(attach, (Reader(b), Trace(b)))
OP(pull, r.Reader::pull(e))
OP(pop, r.pop(e))
OP(sync, r.synchronize())
OP(gap, r.gap())
OP(length, (r.Reader::length(), r.length(), r.consumed()))
OP(move, (r.increment_cursor(), r.decrement_cursor(), r.set_cursor(i)))
OP(reset, (r.reset(), r.get_cursor()))
OP(set, (vf_opt("unroll", 0), r.set(t)))
OP(tpull, r.pull(e))
OP(read, (r.read(e), r.read_next(e), r.read_previous(e)))
OP(debug, (r.Reader::debug(), r.debug()))
