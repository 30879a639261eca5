// Whoever enables or disables the task, at any moment.
#ifndef VF_ENV_H
#define VF_ENV_H
#include "task.h"
#ifdef CHECK_LIFE
#define LCHECK(c, l) CHECK(c, l)
#else
#define LCHECK(c, l) (void)(c)
#endif
static status shadow;          // the status as last seen
static bool activated = false; // somebody asked the task to run
static bool seen = false;      // the task has looked at an abort request
static unsigned env_steps = 0;
// what the task itself may do to its status
static void own_change() {
  status s = T->st;
  if (s != shadow) {
    LCHECK((shadow == ACTIVATE && s == RUNNING) || (shadow == ABORT && s == ABORTED),
          "the task changes its status only from activated to running and from abort requested to aborted");
    shadow = s;
  }
}
static bool env_may();
static void env_step() {
  own_change();
  if (env_may()) {
    if (shadow == UNACTIVATE && vf_bool()) {
      T->st = ACTIVATE;
      activated = true;
    } else if (shadow != ABORT && shadow != ABORTED && vf_bool())
      T->st = ABORT;
    shadow = T->st;
  }
}
static void on_read(void *, size_t) {
  env_step();
  if (shadow == ABORT)
    seen = true;
}
static void on_other(void *, size_t) { env_step(); }
static inline void watch() {
  vf_cb_load(&T->st, sizeof(T->st), on_read);
  vf_cb_store(&T->st, sizeof(T->st), on_other);
  vf_cb_cas(&T->st, sizeof(T->st), on_other);
}
static inline void environment() {
  ASSUME(T->st == UNACTIVATE);
  shadow = T->st;
  watch();
}
// something happens while the task is elsewhere
static inline void meanwhile() {
  vf_unwatch(&T->st);
  env_step();
  watch();
}
static inline void leave() {
  vf_unwatch(&T->st);
  own_change();
}
#endif
