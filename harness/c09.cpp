// how the shared state is accessed
#include "rd.h"
#include "wait.h"
#include "writer.h"
#include "clock.h"
typedef RTML_writer<Buf> W;
static bool loaded;
static Buf *B;
static void on_load(void *, size_t) { loaded = true; }
static void on_cas(void *, size_t) { loaded = true; }
static void on_frame(void *p, size_t) { CHECK(loaded, "fields of the ring state are reached through an atomic load of the same operation"); }
static void watch(Buf &b) {
  vf_opt("unroll", 50);
  vf_atomic(&b.page, sizeof(b.page));
  vf_noplain(&b.page, sizeof(b.page), "the shared state is only accessed atomically");
  vf_cb_load(&b.page, sizeof(b.page), on_load);
  vf_cb_cas(&b.page, sizeof(b.page), on_cas);
  vf_cb_any(&b.state_global, sizeof(b.state_global), on_frame);
  loaded = false;
}
// the published state is in the buffer (0) or in the writer
static void settle(Buf &b, W &w, size_t &bot, size_t &top) {
  Ev e;
  any_event(e);
  int n = vf_choice(3);
  if (n > 0)
    w.push_all(e);
  if (n > 1)
    w.push_all(e);
  vf_havoc(&w, sizeof(w));
  any_state(b, bot, top);
}
#define SETUP                                                                  \
  Buf b;                                                                       \
  W w(b);                                                                      \
  size_t bot, top;                                                             \
  settle(b, w, bot, top);                                                      \
  Ev e;                                                                        \
  any_event(e);
#define WATCH                                                                  \
  watch(b);                                                                    \
  vf_cb_any(&w, sizeof(w), on_frame)
#define BUFOP(name, call)                                                      \
  ENTRY(name) {                                                                \
    SETUP;                                                                     \
    timespanw ts, ts_t;                                                        \
    size_t i = vf_u64();                                                       \
    (void)ts, (void)ts_t, (void)i;                                             \
    WATCH;                                                                     \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
BUFOP(push, b.push(e))
BUFOP(pull, b.pull(e))
BUFOP(pop, b.pop(e))
BUFOP(read, b.read(e, i))
BUFOP(write, b.write(e, i))
BUFOP(state, b.state(bot, top))
BUFOP(state_times, b.state(bot, top, ts, ts_t))
BUFOP(length, b.length())
BUFOP(debug, b.debug())
// the writer works on frames of its own: only those published at the time count
static void writer_push(bool stamp) {
  SETUP;
  watch(b);
  if (stamp)
    w.push(e);
  else
    w.push_all(e);
  CHECK(loaded, "a push loads the shared state");
}
ENTRY(writer_push) { writer_push(true); }
ENTRY(writer_push_all) { writer_push(false); }
#define RDOP(name, call)                                                       \
  ENTRY(name) {                                                                \
    SETUP;                                                                     \
    size_t rb, rt, c, i = vf_u64();                                            \
    XT r(b);                                                                   \
    any_trace(r, rb, rt, c);                                                   \
    timespan t = vf_u64();                                                     \
    (void)i, (void)t;                                                          \
    WATCH;                                                                     \
    call;                                                                      \
    vf_reach(#name);                                                           \
  }
RDOP(rd_pull, r.Reader::pull(e))
RDOP(rd_pop, r.pop(e))
RDOP(rd_sync, r.synchronize())
RDOP(rd_gap, r.gap())
RDOP(rd_length, r.Reader::length())
RDOP(tr_cursor, (r.increment_cursor(), r.decrement_cursor(), r.set_cursor(i)))
RDOP(tr_pull, r.pull(e))
RDOP(tr_read, (r.read(e), r.read_next(e), r.read_previous(e)))
// a copy is another buffer: nothing of the source is written, and the copy is private until it is made
ENTRY(assign) {
  SETUP;
  Buf a;
  vf_nowrite(&b, sizeof(b), "assignment never writes its source");
  vf_nowrite(&w, sizeof(w), "assignment never writes its source");
  a = b;
  vf_reach("assign");
}
