// a task is complete before its thread exists
#include "task.h"
static int waited(const struct timespec *) { return ETIMEDOUT; }
static void slept() {}
static void clocked(struct timespec *t) { any_clock(t); }
static void job_called(void *) {}
static void guard() {
  vf_nowrite(&T->fmtx, sizeof(T->fmtx), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->cond, sizeof(T->cond), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->tid, sizeof(T->tid), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->period, sizeof(T->period), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->st, sizeof(T->st), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->run, sizeof(T->run), "nothing the thread uses is set again once the thread exists");
  vf_nowrite(&T->run_payload, sizeof(T->run_payload), "nothing the thread uses is set again once the thread exists");
}
static void common() {
  CHECK(T->period == want_period, "the period is set before the thread exists");
  CHECK(T->st == UNACTIVATE, "the task is dormant before the thread exists");
}
static void on_task() {
  common();
  CHECK(T->tid == the_id, "the identifier is set before the thread exists");
  CHECK(T->run == job, "the job is set before the thread exists");
  CHECK(T->run_payload == &payload_obj, "the payload is set before the thread exists");
  guard();
}
static void on_monitor() {
  common();
  CHECK(T->run != 0, "the job of a monitor is set before the thread exists");
  CHECK(T->run_payload != 0, "the payload of a monitor is set before the thread exists");
  const char *s = T->tid;
  CHECK((s[0] == 'a' && s[1] == 'b' && s[2] == 'c' && s[3] == 'd' && s[4] == 0), "a monitor's name is set before the thread exists");
  guard();
  vf_nowrite(T->tid, 5, "a monitor's name is not set again once the thread exists");
}
ENTRY(task) {
  created = on_task;
  A_TASK;
  CHECK(n_create == 1, "constructing a task creates its thread");
}
ENTRY(monitor) {
  created = on_monitor;
  A_MONITOR;
  CHECK(n_create == 1, "constructing a task creates its thread");
  void *self = static_cast<RTML_monitor<'a', 'b', 'c', 'd'> *>(&m);
  CHECK(T->run_payload == self, "the payload of a monitor is the monitor");
}
ENTRY(default_monitor) {
  created = on_monitor;
  want_period = vf_u32();
  want_policy = DEFAULT_SCHED;
  want_prio = DEFAULT_PRIORITY;
  Mon m(want_period);
  CHECK(n_create == 1, "constructing a task creates its thread");
}
// a name is a string, however long: 0, 1 and 5 characters
template <char... c> struct Named : RTML_monitor<c...> {
  void run() {}
  Named(useconds_t p) : RTML_monitor<c...>(p) {}
};
static const char *want_name;
static unsigned name_length;
static void on_named() {
  const char *s = T->tid;
  for (unsigned i = 0; i <= name_length; i++)
    CHECK(s[i] == (i < name_length ? want_name[i] : 0), "the name of a monitor ends where its characters end");
}
template <char... c> static void named(const char *n) {
  created = on_named;
  want_name = n;
  name_length = sizeof...(c);
  want_period = vf_u32();
  want_policy = DEFAULT_SCHED;
  want_prio = DEFAULT_PRIORITY;
  Named<c...> m(want_period);
  CHECK(n_create == 1, "constructing a task creates its thread");
}
ENTRY(name_5) { named<'a', 'b', 'c', 'd', 'e'>("abcde"); }
ENTRY(name_1) { named<'a'>("a"); }
ENTRY(name_0) { named<>(""); }
// the thread of a task created once more, with any stack size
static void on_again() { guard(); }
ENTRY(again) {
  A_TASK;
  n_create = 0;
  created = on_again;
  t.create_task(start, want_prio, want_policy, (int)vf_range(0, 1000000));
  CHECK(n_create == 1, "creating the thread of a task creates its thread");
}
// creation reports the code of the call that failed
ENTRY(report) {
  A_TASK;
  n_init = n_policy = n_stack = n_param = n_create = n_destroy = 0;
  attr_state = NONE;
  may_fail = true;
  failed = 0;
  int r = t.create_task(start, want_prio, want_policy);
  CHECK(r == failed, "creation reports the code of the call that failed");
  vf_reach("created");
}
