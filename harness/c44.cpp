// the thread of a task runs as asked
#define CHECK_SCHED
#include "task.h"
static int waited(const struct timespec *) { return ETIMEDOUT; }
static void slept() {}
static void clocked(struct timespec *t) { any_clock(t); }
static void job_called(void *) {}
static void done() {
  CHECK(n_create == 1 && n_policy >= 1 && n_param >= 1, "the thread is created with a policy and a priority");
}
ENTRY(task) {
  A_TASK;
  done();
}
ENTRY(monitor) {
  A_MONITOR;
  done();
}
ENTRY(default_monitor) {
  want_period = vf_u32();
  want_policy = DEFAULT_SCHED;
  want_prio = DEFAULT_PRIORITY;
  Mon m(want_period);
  done();
}
ENTRY(again) {
  A_TASK;
  int n = (int)vf_range(1, 1000000);
  want_stack = n;
  n_create = n_policy = n_param = 0;
  t.create_task(start, want_prio, want_policy, n);
  done();
}
// without this the thread runs with the policy and priority of the thread that creates it
ENTRY(inherited) {
  A_TASK;
  CHECK(n_create == 1 && explicit_sched, "the thread does not inherit the scheduling of its creator");
}
