// The threads of a task: every system call it makes is a stand-in that keeps the state the call depends on.
#ifndef VF_TASK_H
#define VF_TASK_H
#include "vf.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include "periodicmonitor.h"
// what the state the calls carry is checked for: the order of the calls, the clock, the scheduling parameters
#ifdef CHECK_ORDER
#define OCHECK(c, l) CHECK(c, l)
#else
#define OCHECK(c, l) (void)(c)
#endif
#ifdef CHECK_CLOCK
#define CCHECK(c, l) CHECK(c, l)
#else
#define CCHECK(c, l) (void)(c)
#endif
#ifdef CHECK_SCHED
#define SCHECK(c, l) CHECK(c, l)
#else
#define SCHECK(c, l) (void)(c)
#endif
#define ECHECK(c, l) CHECK(c, l)
#define G 1000000000L
static struct task *T;          // the task whose thread was created
static void *(*start)(void *);  // what the thread runs
static void *start_arg;
// failures
static bool may_fail = false;
static int failed = 0; // the first failing code
static int outcome() {
  if (!may_fail || vf_bool())
    return 0;
  int e = (int)vf_range(1, 1000);
  if (!failed)
    failed = e;
  return e;
}
// thread attributes
enum { NONE, LIVE, DEAD };
static int attr_state = NONE;
static const pthread_attr_t *attr_obj;
static int n_init, n_policy, n_stack, n_param, n_create, n_destroy;
static int want_policy, want_prio;
static long want_stack = STACK_SIZE;
static void (*created)() = 0;
static void attr_use(const pthread_attr_t *a) {
  OCHECK(attr_state != NONE, "a thread attribute is initialised before it is used");
  OCHECK(attr_state != DEAD, "a thread attribute is not used after it was destroyed");
  OCHECK(a == attr_obj, "the attribute used is the one initialised");
}
extern "C" int pthread_attr_init(pthread_attr_t *a) noexcept(true) {
  n_init++;
  OCHECK(n_init == 1, "a thread attribute is initialised once");
  int e = outcome();
  if (!e) {
    attr_obj = a;
    attr_state = LIVE;
  }
  return e;
}
extern "C" int pthread_attr_setschedpolicy(pthread_attr_t *a, int p) noexcept(true) {
  attr_use(a);
  OCHECK(!failed, "nothing is set up after a failure");
  n_policy++;
  OCHECK(n_policy == 1, "the scheduling policy is set once");
  SCHECK(p == want_policy, "the scheduling policy is the one asked for");
  return outcome();
}
extern "C" int pthread_attr_setstacksize(pthread_attr_t *a, size_t n) noexcept(true) {
  attr_use(a);
  OCHECK(!failed, "nothing is set up after a failure");
  n_stack++;
  OCHECK(n_stack == 1, "the stack size is set once");
  SCHECK(n == (size_t)want_stack, "the stack size is the one asked for");
  return outcome();
}
extern "C" int pthread_attr_setschedparam(pthread_attr_t *a, const struct sched_param *p) noexcept(true) {
  attr_use(a);
  OCHECK(!failed, "nothing is set up after a failure");
  n_param++;
  OCHECK(n_param == 1, "the scheduling parameters are set once");
  SCHECK(p->sched_priority == want_prio, "the priority is the one asked for");
  return outcome();
}
static bool explicit_sched = false;
extern "C" int pthread_attr_setinheritsched(pthread_attr_t *a, int i) noexcept(true) {
  attr_use(a);
  OCHECK(!failed, "nothing is set up after a failure");
  int e = outcome();
  if (!e)
    explicit_sched = i == PTHREAD_EXPLICIT_SCHED;
  return e;
}
extern "C" int pthread_attr_destroy(pthread_attr_t *a) noexcept(true) {
  attr_use(a);
  n_destroy++;
  OCHECK(n_destroy == 1, "a thread attribute is destroyed once");
  attr_state = DEAD;
  return outcome();
}
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept(true) {
  attr_use(a);
  OCHECK(!failed, "no thread is created after a failure");
  n_create++;
  OCHECK(n_create == 1, "the thread is created once");
  OCHECK(n_policy == 1 && n_stack == 1 && n_param == 1, "the attribute is complete before the thread is created");
  int e = outcome();
  if (e)
    return e;
  T = (struct task *)arg;
  start = f;
  start_arg = arg;
  OCHECK(t == &T->thread, "the thread is recorded in its task");
  *t = vf_u64();
  if (created)
    created();
  return 0;
}
static int join_result;
static int n_join;
static pthread_t joined;
extern "C" int pthread_join(pthread_t t, void **r) {
  n_join++;
  joined = t;
  if (r && !join_result)
    *r = NULL;
  return join_result;
}
// synchronisation objects
static int mtx = NONE, cnd = NONE;
static bool locked = false;
static const void *mtx_obj, *cnd_obj;

extern "C" int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept(true) {
  OCHECK(mtx == NONE, "the mutex is initialised once");
  int e = outcome();
  if (!e) {
    mtx = LIVE;
    mtx_obj = m;
  }
  return e;
}
extern "C" int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept(true) {
  OCHECK(cnd == NONE, "the condition is initialised once");
  CCHECK(a == NULL, "the condition waits on the realtime clock");
  int e = outcome();
  if (!e) {
    cnd = LIVE;
    cnd_obj = c;
  }
  return e;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept(true) {
  OCHECK(mtx == LIVE && m == mtx_obj, "the mutex is initialised before it is locked");
  OCHECK(!locked, "the mutex is not locked again while held");
  locked = true;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept(true) {
  OCHECK(m == mtx_obj && locked, "the mutex is released only while held");
  locked = false;
  return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t *m) noexcept(true) {
  OCHECK(mtx == LIVE && m == mtx_obj && !locked, "the mutex is destroyed only after its initialisation and release [if called]");
  mtx = DEAD;
  return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t *c) noexcept(true) {
  OCHECK(cnd == LIVE && c == cnd_obj, "the condition is destroyed only after its initialisation [if called]");
  cnd = DEAD;
  return 0;
}
static int waited(const struct timespec *);
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs) {
  OCHECK(mtx == LIVE && m == mtx_obj && locked, "the mutex is held while waiting");
  OCHECK(cnd == LIVE && c == cnd_obj, "the condition is initialised before it is waited on");

  return waited(abs);
}
static void slept();
extern "C" int nanosleep(const struct timespec *t, struct timespec *rem) {
  OCHECK(t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < G, "a time slept is normalised [if called]");
  OCHECK(!locked, "the mutex is not held while sleeping [if called]");

  slept();
  return 0;
}
// other ways to sleep for a while
extern "C" int usleep(useconds_t) {
  OCHECK(!locked, "the mutex is not held while sleeping [if called]");
  slept();
  return 0;
}
extern "C" int sched_yield() noexcept(true) {
  slept();
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) {
  OCHECK(!locked, "the mutex is not held while sleeping [if called]");
  ECHECK(flags == 0, "a task waits for its release on its condition [if called]");
  slept();
  return 0;
}
extern "C" int pthread_cancel(pthread_t) {
  ECHECK(false, "a task is asked to end, not cancelled [if called]");
  return 0;
}
static void clocked(struct timespec *);
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept(true) {
  CCHECK(id == CLOCK_REALTIME, "releases follow the realtime clock");
  clocked(t);
  return 0;
}
static inline void any_clock(struct timespec *t) {
  t->tv_sec = vf_range(0, 9000000000L);
  t->tv_nsec = vf_range(0, G - 1);
}
// times that decide little: whole seconds
static inline void coarse_clock(struct timespec *t) {
  t->tv_sec = vf_range(0, 9000000000L);
  t->tv_nsec = 0;
}
// the task and its job
static int payload_obj;
static const char the_id[5] = "task";

static void job_called(void *);
static void *job(void *p) {

  job_called(p);
  return NULL;
}
static useconds_t want_period;
static inline void any_sched() {
  want_prio = vf_i32();
  want_policy = vf_i32();
  want_period = vf_u32();
}
#define A_TASK                                                                 \
  any_sched();                                                                 \
  struct task t(the_id, job, want_prio, want_policy, want_period, &payload_obj)
class Mon : public RTML_monitor<'a', 'b', 'c', 'd'> {
protected:
  void run() { job((void *)this); }

public:
  Mon(useconds_t p, unsigned pol, unsigned prio) : RTML_monitor(p, pol, prio) {}
  Mon(useconds_t p) : RTML_monitor(p) {}
};
#define A_MONITOR                                                              \
  any_sched();                                                                 \
  Mon m(want_period, (unsigned)want_policy, (unsigned)want_prio)
#endif
