// Readers and trace cursors in any state, on a buffer in any state.
#ifndef VF_RD_H
#define VF_RD_H
#include "buf.h"
#include "reader.h"
#include "rmtld3/reader.h"
#if defined(ONCE) || defined(LONG)
// a buffer whose events are known to be something
static void known(Ev &e, size_t i);
struct Known : Buf {
  error_t read(Ev &e, size_t i) const {
    error_t r = Buf::read(e, i);
    if (r == Buf::OK)
      known(e, i);
    return r;
  }
};
typedef RTML_reader<Known> Reader;
#else
typedef Buf Known;
typedef RTML_reader<Buf> Reader;
#endif
typedef RMTLD3_reader<Reader> Trace;
// what a reader holds
struct XR : Reader {
  XR(const Known &b) : Reader(b) {}
  size_t &t() { return this->top; }
  size_t &b() { return this->bottom; }
  timespanw &ts() { return this->timestamp; }
};
struct XT : Trace {
  XT(const Known &b) : Trace(b) {}
  size_t &t() { return this->top; }
  size_t &b() { return this->bottom; }
  timespanw &ts() { return this->timestamp; }
};
// every scalar of the reader, ends inside the ring
template <class R> static inline void any_reader(R &r, size_t &bot, size_t &top) {
  vf_havoc(&r, sizeof(r));
  ASSUME(r.t() <= CAP && r.b() <= CAP);
  bot = r.b();
  top = r.t();
}
static inline void any_trace(XT &r, size_t &bot, size_t &top, size_t &cur) {
  any_reader(r, bot, top);
  ASSUME(r.get_cursor() <= CAP);
  cur = r.get_cursor();
}
// is slot i one of the len slots from b on
static inline size_t ring_off(size_t b, size_t i) { return i >= b ? i - b : CAP + 1 - (b - i); }
#endif
