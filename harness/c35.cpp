// releases
#define CHECK_CLOCK
#include "task.h"
static bool first = true, again = false;
static long reading[4];
static int readings = 0;
static long last_sec, last_nsec, last;
static long p_now, p_before;   // the periods seen in this iteration
static bool two = false, spurious = false;
static unsigned jobs_since = 0;
static long ns(const struct timespec *t) { return t->tv_sec * G + t->tv_nsec; }
static void change_period() { T->period = vf_u32(); }
// the period may be set at any moment
static void on_period(void *, size_t) {
  if (vf_bool())
    change_period();
  p_before = p_now;
  two = true;
  p_now = T->period;
}
// the same for every round, however many there were before
static bool steady = false;
static int rounds = 0;
static int steady_wait(const struct timespec *abs) {
  CHECK(abs->tv_nsec >= 0 && abs->tv_nsec < G, "a release time is normalised");
  if (rounds) {
    CHECK(ns(abs) == last + (long)T->period * 1000, "a release is exactly one current period after the one before");
    CHECK(jobs_since == 1, "the job runs once per release");
  }
  vf_gen(&abs->tv_sec, sizeof(abs->tv_sec));
  vf_gen(&abs->tv_nsec, sizeof(abs->tv_nsec));
  last = ns(abs);
  if (rounds++ > 2) {
    vf_reach("many rounds");
    vf_end();
  }
  if (rounds > 1)
    vf_round("release");
  jobs_since = 0;
  return ETIMEDOUT;
}
static bool is_reading(long x) {
  bool r = false;
  for (int i = 0; i < 4; i++)
    if (i < readings && reading[i] == x)
      r = true;
  return r;
}
static int waited(const struct timespec *abs) {
  if (steady)
    return steady_wait(abs);
  long r = ns(abs);
  CHECK(abs->tv_nsec >= 0 && abs->tv_nsec < G, "a release time is normalised");
  if (again)
    CHECK(r == last, "waiting is resumed for the same release");
  else if (first) {
    long base = r - p_now * 1000, base2 = r - p_before * 1000;
    CHECK(is_reading(base) || (two && is_reading(base2)), "the first release is one period after the clock at activation");
  } else {
    CHECK(r == last + p_now * 1000 || (two && r == last + p_before * 1000), "a release is exactly one current period after the one before");
    CHECK(jobs_since == 1, "the job runs once per release");
  }
  // from here on any release time stands for this one
  vf_gen(&abs->tv_sec, sizeof(abs->tv_sec));
  vf_gen(&abs->tv_nsec, sizeof(abs->tv_nsec));
  last = ns(abs);
  again = false;
  // any later release is like this one
  if (!first)
    vf_end();
  if (!spurious && vf_bool()) {
    spurious = again = true;
    // woken up early, or the wait failed
    if (vf_bool())
      return 0;
    int e = vf_i32();
    ASSUME(e > 0 && e != ETIMEDOUT);
    return e;
  }
  first = false;
  jobs_since = 0;
  // the period may be set while the task waits
  if (vf_bool())
    change_period();
  p_now = p_before = T->period;
  two = false;
  return ETIMEDOUT;
}
// the task is activated while it sleeps
static void slept() {
  if (T->st != UNACTIVATE)
    vf_end();
  T->st = ACTIVATE;
}
static void clocked(struct timespec *t) {
  if (steady) {
    coarse_clock(t);
    return;
  }
  any_clock(t);
  if (first && T->st != UNACTIVATE && readings < 4)
    reading[readings++] = ns(t);
}
static void job_called(void *p) {
  if (steady) {
    jobs_since++;
    CHECK(jobs_since == 1, "the job runs once per release");
    return;
  }
  CHECK(!first && !again, "the job runs only once its release time is reached");
  CHECK(p == T->run_payload, "the job gets its payload");
  jobs_since++;
  CHECK(jobs_since == 1, "the job runs once per release");
  vf_reach("the job is released");
}
static void thread() {
  p_now = p_before = T->period;
  vf_cb_load(&T->period, sizeof(T->period), on_period);
  vf_opt("unroll", 20);
  start(start_arg);
}
ENTRY(task) {
  A_TASK;
  thread();
}
ENTRY(monitor) {
  A_MONITOR;
  thread();
}
static void always() {
  steady = true;
  T->st = ACTIVATE;
  ASSUME(T->period < 1000000);
  vf_opt("unroll", 20);
  start(start_arg);
}
ENTRY(steady_task) {
  A_TASK;
  always();
}
ENTRY(steady_monitor) {
  A_MONITOR;
  always();
}
