// Every operation of the library, instantiated.
#ifndef VF_ALL_H
#define VF_ALL_H
#include "circularbuffer.h"
#include "reader.h"
#include "writer.h"
#include "rmtld3/reader.h"
#include "rmtld3/formulas.h"
#include "rmtld3/terms.h"
typedef Event<int> AEv;
typedef RTML_buffer<AEv, 3> ABuf;
typedef RTML_reader<ABuf> ARd;
typedef RTML_writer<ABuf> AWr;
typedef RMTLD3_reader<ARd> ATr;
template class Event<int>;
template class RTML_buffer<AEv, 3>;
template class RTML_reader<ABuf>;
template class RTML_writer<ABuf>;
template class RMTLD3_reader<ARd>;
struct AFm {
  static three_valued_type eval_phi1(ATr &r, timespan &t) { return prop<ATr>(r, 1, t); }
  static three_valued_type eval_phi2(ATr &r, timespan &t) { return prop<ATr>(r, 2, t); }
};
static inline void use_all(ATr &r, timespan &t) {
  prop<ATr>(r, 1, t);
  until_less<ATr, AFm, 10>(r, t);
  until_less<ATr, AFm, 10, int>(r, t);
  eventually_equal<ATr, AFm, 10>(r, t);
  eventually_less_unbounded<ATr, AFm>(r, t);
  always_equal<ATr, AFm, 10>(r, t);
  always_less<ATr, AFm, 10>(r, t);
  since_less<ATr, AFm, 10>(r, t);
  pasteventually_equal<ATr, AFm, 10>(r, t);
  historically_equal<ATr, AFm, 10>(r, t);
  historically_less<ATr, AFm, 10>(r, t);
  duration_term<ATr, AFm, 10>(r, t);
}
static inline void use_ring() {
  ABuf b, c;
  AEv e(1, 2), f;
  AWr w(b);
  ATr r(b);
  timespan t = 0;
  w.push(e);
  w.push_all(e);
  b.push(e);
  b.pull(f);
  b.pop(f);
  c = b;
  r.synchronize();
  r.set(t);
  use_all(r, t);
  (void)(e == f), (void)(e != f), (void)(e < f), (void)(e > f), (void)(e <= f), (void)(e >= f);
}
#endif
