// typestate of the thread attribute, the mutex and the condition
#define CHECK_ORDER
#include "task.h"
// two rounds of every loop, from any times
static unsigned sleeps, waits, spurious, jobs;
// how often the task has come around before: what it counts may have any value by then
static bool late = false;
static unsigned rounds = 0, naps = 0;
static int waited(const struct timespec *) {
  if (late && rounds < 3) {
    if (++rounds > 1)
      vf_round("release");
    return ETIMEDOUT;
  }
  if (vf_bool())
    return ETIMEDOUT;
  int e = (int)vf_range(0, ETIMEDOUT - 1);
  if (e == 0 && spurious++)
    vf_end();
  return e;
}
static void slept() {
  if (late && naps < 3) {
    if (++naps > 1)
      vf_round("nap");
    return;
  }
  if (sleeps++)
    vf_end();
  T->st = vf_bool() ? ACTIVATE : ABORT;
}
static void clocked(struct timespec *t) {
  if (late)
    coarse_clock(t);
  else
    any_clock(t);
}
static void job_called(void *) {
  CHECK(!locked, "the mutex is released before the job runs");
  if (late && rounds < 3)
    return;
  if (jobs++)
    vf_end();
  if (vf_bool())
    T->st = ABORT;
}
static void done() {
  CHECK(n_init == 1, "creating a task creates its thread");
  CHECK(failed || n_create == 1, "creating a task creates its thread");
  CHECK(attr_state != LIVE, "a thread attribute is destroyed on every path");
}
static void thread() {
  start(start_arg);
  CHECK(!locked, "the mutex is released on every exit of the task");
  vf_reach("the task ends");
}
ENTRY(create) {
  may_fail = true;
  A_TASK;
  done();
}
ENTRY(create_monitor) {
  may_fail = true;
  A_MONITOR;
  done();
}
ENTRY(create_default_monitor) {
  may_fail = true;
  want_period = vf_u32();
  want_policy = DEFAULT_SCHED;
  want_prio = DEFAULT_PRIORITY;
  Mon m(want_period);
  done();
}
ENTRY(thread) {
  A_TASK;
  may_fail = true;
  failed = 0;
  vf_opt("unroll", 20);
  vf_opt("must_terminate", 20);
  thread();
}
ENTRY(monitor_thread) {
  A_MONITOR;
  may_fail = true;
  failed = 0;
  vf_opt("unroll", 20);
  vf_opt("must_terminate", 20);
  thread();
}
ENTRY(late_thread) {
  A_TASK;
  late = true;
  failed = 0;
  ASSUME(T->period < 1000000);
  vf_opt("unroll", 20);
  vf_opt("must_terminate", 20);
  thread();
}
