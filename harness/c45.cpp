// what a monitor tells about itself
#include "task.h"
static int waited(const struct timespec *) { return ETIMEDOUT; }
static void slept() {}
static void clocked(struct timespec *t) { any_clock(t); }
static void job_called(void *) {}
static void any_status() { T->st = (status)vf_range(ACTIVATE, ABORTED); }
ENTRY(is_running) {
  A_MONITOR;
  any_status();
  status s = T->st;
  vf_nowrite(&m, sizeof(m), "asking a monitor changes nothing");
  CHECK(m.isRunning() == (s == RUNNING), "a monitor is running exactly in that status");
}
ENTRY(period) {
  A_MONITOR;
  any_status();
  const Mon &c = m;
  CHECK(c.getPeriod() == want_period, "the period reported is the one given");
  vf_nowrite(&m, sizeof(m), "asking a monitor changes nothing");
  (void)c.getPeriod();
}
ENTRY(set_period) {
  A_MONITOR;
  any_status();
  status s = T->st;
  useconds_t p = vf_u32();
  const useconds_t q = p;
  vf_nowrite(&p, sizeof(p), "setting the period leaves the caller's period alone");
  vf_nowrite(&T->st, sizeof(T->st), "setting the period sets nothing else");
  vf_nowrite(&T->thread, sizeof(T->thread), "setting the period sets nothing else");
  vf_nowrite(&T->fmtx, sizeof(T->fmtx), "setting the period sets nothing else");
  vf_nowrite(&T->cond, sizeof(T->cond), "setting the period sets nothing else");
  vf_nowrite(&T->tid, sizeof(T->tid), "setting the period sets nothing else");
  vf_nowrite(&T->run, sizeof(T->run), "setting the period sets nothing else");
  vf_nowrite(&T->run_payload, sizeof(T->run_payload), "setting the period sets nothing else");
  m.setPeriod(p);
  vf_unwatch_all();
  CHECK(T->period == q && m.getPeriod() == q && p == q, "setting the period takes effect");
  (void)s;
}
// joining waits for the thread of the monitor and tells whether that was possible
ENTRY(join) {
  A_MONITOR;
  any_status();
  join_result = vf_bool() ? 0 : (int)vf_range(1, 1000);
  n_join = 0;
  pthread_t t = T->thread;
  vf_nowrite(&m, sizeof(m), "joining changes nothing of the monitor");
  int r = m.join();
  CHECK(n_join == 1 && joined == t, "joining waits for the thread of the monitor, once");
  CHECK((r == 0) == (join_result == 0), "joining reports success exactly when the thread has ended");
}
