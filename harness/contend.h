// A writer under arbitrary interference by other writers: before every atomic access to the
// shared state, any number of other publications may have happened.
#ifndef VF_CONTEND_H
#define VF_CONTEND_H
#include "buf.h"
#include "writer.h"
#if defined(__riscv)
// the published word has no version here: what is assumed of it instead is that no frame is published again
// while a push is under way (DEPTH=1)
#define VERSION(p) ((uint64_t)0)
#define SET_VERSION(p, v)
#define NEWER(p, c) true
#define UNVERSIONED 1
#else
#define VERSION(p) ((uint64_t)(p).counter)
#define SET_VERSION(p, v) ((p).counter = (v))
#define NEWER(p, c) ((p).counter > (c))
#define UNVERSIONED 0
#endif
typedef RTML_writer<Buf> W;
typedef Buf::state_t Frame;
struct World {
  Buf *b;
  W *w;
  Frame *env0, *env1;
};
static World world;
static bool interfere = false;
#ifndef DEPTH
#define DEPTH 2
#endif
static unsigned interferences = 0, yields = 0;
static bool in_setup = true;

static void any_frame(Frame *f) {
  vf_havoc(f, sizeof(*f));
  ASSUME(f->top <= CAP && f->bottom <= CAP && f->pos <= CAP);
}
// other writers publish, and write slots
static void others() {
  page_t p = world.b->page.load();
  uint64_t c = VERSION(p);
  // the frame another writer publishes: one of its own, perhaps the one it had published before
  Frame *f = (Frame *)p.stateref == world.env0 && (UNVERSIONED || vf_bool()) ? world.env1 : world.env0;
  vf_havoc(world.b, sizeof(Buf));
  ASSUME(world.b->size == CAP + 1 && world.b->size_util == CAP);
  any_frame(f);
  p.stateref = (NATIVE_POINTER_TYPE)f;
  SET_VERSION(p, vf_u64());
  ASSUME(NEWER(p, c));
  world.b->page.store(p);
}
static void maybe_others() {
  if (interfere && interferences < DEPTH && vf_bool()) {
    interferences++;
    others();
  }
}
// any ring state, published in the buffer (0), in the writer (1, 2) or in another writer (3)
static void any_world(Buf &b, W &w, Frame &e0, Frame &e1, int n) {
  world.b = &b;
  world.w = &w;
  world.env0 = &e0;
  world.env1 = &e1;
  Ev e;
  any_event(e);
  if (n == 1 || n == 2)
    w.push_all(e);
  if (n == 2)
    w.push_all(e);
  vf_havoc(&w, sizeof(w));
  any_frame(&e0);
  any_frame(&e1);
  size_t bot, top;
  any_state(b, bot, top);
  page_t p = b.page.load();
  SET_VERSION(p, vf_u64());
  ASSUME(VERSION(p) < UINT64_MAX - 16);
  if (n == 3)
    p.stateref = (NATIVE_POINTER_TYPE)&e0;
  b.page.store(p);
  Frame *f = (Frame *)p.stateref;
  ASSUME(f->pos <= CAP && f->top <= CAP && f->bottom <= CAP);
}
#endif
