// a disabled task stops
#include "task.h"
static unsigned sleeps, waits, jobs, after, spurious;
static bool requested = false, wait_failed = false;
// how often the task has come around before: what it counts may have any value by then
static bool late = false;
static unsigned rounds = 0, naps = 0;
// one abort request, at any moment
static void request() {
  if (late && rounds < 3 && naps < 3)
    return;
  if (!requested && T->st != ABORTED && vf_bool()) {
    T->st = ABORT;
    requested = true;
  }
}
static void on_status(void *, size_t) { request(); }
static void watch() { vf_cb_any(&T->st, sizeof(T->st), on_status); }
static void step() {
  vf_unwatch(&T->st);
  request();
  watch();
  if (requested) {
    CHECK(after < 8, "a disabled task stops after a few steps");
    after++;
  }
}
static int waited(const struct timespec *) {
  if (late && rounds < 3) {
    if (++rounds > 1)
      vf_round("release");
    return ETIMEDOUT;
  }
  step();
  if (waits++ > 0 && !requested)
    vf_end();
  if (vf_bool())
    return ETIMEDOUT;
  int e = (int)vf_range(0, ETIMEDOUT - 1);
  if (e == 0) {
    if (spurious++)
      vf_end();
  } else
    wait_failed = true;
  return e;
}
static void slept() {
  if (late && rounds < 3 && naps < 3) {
    if (++naps > 1)
      vf_round("nap");
    if (naps < 3)
      return;
  }
  step();
  if (!requested) {
    if (sleeps++ > 0)
      vf_end();
    vf_unwatch(&T->st);
    T->st = ACTIVATE;
    watch();
  }
}
static void clocked(struct timespec *t) { coarse_clock(t); }
static void job_called(void *) {
  if (late && rounds < 3)
    return;
  step();
  if (jobs++ > 0 && !requested)
    vf_end();
}
static void thread() {
  T->st = vf_bool() ? ACTIVATE : UNACTIVATE;
  T->period = 1000000;
  watch();
  failed = 0;
  vf_opt("unroll", 30);
  vf_opt("must_terminate", 20);
  void *r = start(start_arg);
  vf_unwatch_all();
  CHECK(!locked, "the mutex is released on every exit of the task");
  CHECK(r == NULL, "a task that ends returns nothing");
  if (!failed && !wait_failed) {
    CHECK(T->st == ABORTED, "a disabled task ends aborted");
    vf_reach("a disabled task ends");
  }
}
ENTRY(task) {
  A_TASK;
  may_fail = vf_bool();
  thread();
}
ENTRY(monitor) {
  A_MONITOR;
  thread();
}
ENTRY(late_task) {
  A_TASK;
  late = true;
  thread();
}
ENTRY(late_monitor) {
  A_MONITOR;
  late = true;
  thread();
}
