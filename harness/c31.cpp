// the lifecycle of a task
#define CHECK_LIFE
#include "env.h"
static unsigned sleeps, waits, jobs;
enum { DORMANT = 1, ACTIVE };
static int forever = 0;
static bool watched = false;
static bool env_may() { return vf_bool(); }
static void *payload;
// a store may hide a request that was made just before it
static void overwritten(void *, size_t) { CHECK(false, "a running task that nobody stops leaves its status alone [if called]"); }
static int waited(const struct timespec *) {
  CHECK(forever != DORMANT, "only activation ends the dormancy of a task");
  if (forever == ACTIVE) {
    vf_reach("a running task waits");
    if (!watched) {
      watched = true;
      vf_cb_store(&T->st, sizeof(T->st), overwritten);
    }
    return ETIMEDOUT;
  }
  if (waits++ > 1)
    vf_end();
  return ETIMEDOUT;
}
static void slept() {
  if (forever == DORMANT) {
    CHECK(T->st == UNACTIVATE, "only activation ends the dormancy of a task");
    vf_reach("a dormant task waits");
    return;
  }
  CHECK(jobs == 0, "a running task is not dormant");
  if (sleeps++ > 1)
    vf_end();
}
static void clocked(struct timespec *t) {
  coarse_clock(t);
}
static void job_called(void *p) {
  CHECK(forever != DORMANT, "only activation ends the dormancy of a task");
  if (forever == ACTIVE)
    return;
  CHECK(activated, "the job never runs before the task is activated");
  CHECK(!seen, "the job never runs once the task has seen an abort request");
  CHECK(p == payload, "the job gets its payload");
  CHECK(shadow == RUNNING || shadow == ABORT, "a task whose job runs is running or asked to abort");
  jobs++;
  vf_reach("an activated task runs its job");
}
static void thread() {
  CHECK(T->st == UNACTIVATE, "a task is created dormant");
  environment();
  T->period = 1000000;
  vf_opt("unroll", 20);
  vf_opt("must_terminate", 20);
  start(start_arg);
  leave();
  CHECK(seen, "a task ends only when it is asked to");
  CHECK(shadow == ABORTED, "a task that was asked to end is aborted");
}
ENTRY(task) {
  A_TASK;
  payload = &payload_obj;
  thread();
}
ENTRY(monitor) {
  A_MONITOR;
  payload = &m;
  thread();
}
// a task that nobody activates stays dormant, and one that nobody stops runs, however long that takes
static void for_ever(int how) {
  CHECK(T->st == UNACTIVATE, "a task is created dormant");
  forever = how;
  T->period = 1000000;
  if (how == ACTIVE)
    T->st = ACTIVATE;
  vf_opt("unroll", 0);
  start(start_arg);
  CHECK(false, "a task ends only when it is asked to");
}
ENTRY(dormant_task) {
  A_TASK;
  for_ever(DORMANT);
}
ENTRY(dormant_monitor) {
  A_MONITOR;
  for_ever(DORMANT);
}
ENTRY(running_task) {
  A_TASK;
  for_ever(ACTIVE);
}
ENTRY(running_monitor) {
  A_MONITOR;
  for_ever(ACTIVE);
}
// the calls that control a monitor, with the task and other controllers running
enum { ENABLE, DISABLE };
static int op;
static unsigned own;
static void control_own() {
  status s = T->st;
  if (s != shadow) {
    own++;
    if (op == ENABLE)
      CHECK(shadow == UNACTIVATE && s == ACTIVATE, "enabling only ever activates a dormant task");
    else
      CHECK(shadow != ABORT && shadow != ABORTED && s == ABORT, "disabling only ever asks a task to abort that was not asked before");
    shadow = s;
  }
}
static void on_control(void *, size_t) {
  control_own();
  switch (vf_choice(4)) {
  case 0:
    if (shadow == UNACTIVATE)
      T->st = ACTIVATE;
    break;
  case 1:
    if (shadow == ACTIVATE)
      T->st = RUNNING;
    else if (shadow == ABORT)
      T->st = ABORTED;
    break;
  case 2:
    if (shadow != ABORT && shadow != ABORTED)
      T->st = ABORT;
    break;
  }
  shadow = T->st;
}
static void control(int o, bool interference) {
  A_MONITOR;
  op = o;
  status s = (status)vf_range(ACTIVATE, ABORTED);
  T->st = shadow = s;
  if (interference)
    vf_cb_any(&T->st, sizeof(T->st), on_control);
  vf_nowrite(&T->thread, sizeof(T->thread), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->fmtx, sizeof(T->fmtx), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->cond, sizeof(T->cond), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->tid, sizeof(T->tid), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->period, sizeof(T->period), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->run, sizeof(T->run), "enabling and disabling change nothing but the status");
  vf_nowrite(&T->run_payload, sizeof(T->run_payload), "enabling and disabling change nothing but the status");
  vf_opt("unroll", 20);
  vf_opt("must_terminate", 20);
  int r = o == ENABLE ? m.enable() : m.disable();
  vf_unwatch_all();
  control_own();
  CHECK(r == P_OK, "enabling and disabling report success");
  if (o == DISABLE)
    CHECK(shadow == ABORT || shadow == ABORTED, "a disabled task is asked to abort");
  else
    CHECK(shadow != UNACTIVATE, "an enabled task is not dormant");
  if (!interference) {
    if (o == ENABLE)
      CHECK(shadow == (s == UNACTIVATE ? ACTIVATE : s), "enabling activates a dormant task and does nothing else");
    else
      CHECK(shadow == (s == ABORTED ? ABORTED : ABORT), "disabling asks every task to abort that is not aborted yet");
  }
}
ENTRY(enable) { control(ENABLE, false); }
ENTRY(disable) { control(DISABLE, false); }
ENTRY(enable_concurrent) { control(ENABLE, true); }
ENTRY(disable_concurrent) { control(DISABLE, true); }
