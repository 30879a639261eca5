// Arbitrary ring states, stated through the public API only.
#ifndef VF_BUF_H
#define VF_BUF_H
#include "vf.h"
#include "circularbuffer.h"
#ifndef CAP
#define CAP 3
#endif
#ifndef DATA
#define DATA int
#endif
typedef Event<DATA> Ev;
typedef RTML_buffer<Ev, CAP> Buf;

// any value of every integer of the buffer, constrained to what every buffer satisfies
template <class BB> static inline void any_state(BB &b, size_t &bot, size_t &top) {
  vf_havoc(&b, sizeof(b));
  ASSUME(b.size == b.size_util + 1);
  ASSUME(b.size_util == CAP);
  b.state(bot, top);
  ASSUME(bot < b.size);
  ASSUME(top < b.size);
}
static inline size_t ring_next(size_t i) { return i + 1 == CAP + 1 ? 0 : i + 1; }
static inline size_t ring_prev(size_t i) { return i == 0 ? CAP : i - 1; }
static inline size_t ring_len(size_t b, size_t t) { return t >= b ? t - b : CAP + 1 - (b - t); }
// any event
static inline void any_event(Ev &e) { vf_havoc(&e, sizeof(e)); }
static inline bool same_event(const Ev &a, const Ev &b) { return a.getData() == b.getData() && a.getTime() == b.getTime(); }
// any slot of the ring
static inline size_t any_slot() {
  size_t i = vf_u64();
  ASSUME(i <= CAP);
  return i;
}
#endif
