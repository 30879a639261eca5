// The published ring state may live in the buffer or in a writer.
#ifndef VF_PUB_H
#define VF_PUB_H
#include "rd.h"
#include "writer.h"
typedef RTML_writer<Buf> W;
static void publish(Buf &b, W &w, size_t &bot, size_t &top) {
  Ev e;
  any_event(e);
  int n = vf_choice(3);
  if (n > 0)
    w.push_all(e);
  if (n > 1)
    w.push_all(e);
  vf_havoc(&w, sizeof(w));
  any_state(b, bot, top);
}
#endif
