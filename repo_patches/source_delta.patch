From 5ae2803d330bec5db989a7e40bd0de0953296ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 01/27] fix: debug dump of a buffer reads past the end of its
 array

---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..39d0257 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -284,7 +284,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From 434644addd5f23a4b0c47b7c071ed59f174b27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 02/27] fix: writer count wraps to zero after 256 writers

---
 src/circularbuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 39d0257..87a7f81 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -167,7 +167,8 @@ public:
    * Increment writer counter
    */
   void increment_writer() {
-    writer++;
+    if (writer < UINT8_MAX) // do not wrap around to zero
+      writer++;
   }
 };
 
-- 
2.43.0


From d42cb567b7738fd3e8ab719d12651b4dd117469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 03/27] fix: events that differ only in data are neither equal
 nor different

---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From d8eefdb9d6388439f18e8665f13338f294789699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 04/27] fix: an assigned buffer shares its state with the
 original

---
 src/atomic_compat.h  | 10 ++++++++++
 src/circularbuffer.h |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..2872b35 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -48,6 +48,7 @@ typedef unsigned int uint32_t;
  */
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
+#define ATOMIC_PAGE_OWN()
 #define ATOMIC_PAGE_SWAP()
 
 #define ATOMIC(body)                                                           \
@@ -228,6 +229,15 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/* move the current state into the buffer that holds the page */
+#define ATOMIC_PAGE_OWN()                                                      \
+  {                                                                            \
+    page_t own = (page_t)std::atomic_load(&page);                              \
+    state_global = *(state_t *)own.stateref;                                   \
+    own.stateref = (NATIVE_POINTER_TYPE)&state_global;                         \
+    std::atomic_exchange(&page, own);                                          \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 87a7f81..26daf4a 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -297,7 +297,11 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
-  MEMCPY(this, &rhs, sizeof(rhs));
+  if (this != &rhs) {
+    MEMCPY(this, &rhs, sizeof(rhs));
+    // the copied page still refers to a state owned by rhs
+    ATOMIC_PAGE_OWN();
+  }
   return *this;
 }
 
-- 
2.43.0


From ce2cc108ee45ce5c32228ae54db0d0a671b14e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 05/27] fix: writers share one scratch state and can overwrite
 a published one

---
 src/atomic_compat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 2872b35..d6d4e6b 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -241,6 +241,7 @@ union page_t {
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
+  state_t state_swap;                                                          \
   state_t *stateref = &state;
 
 #define ATOMIC_PUSH(body)                                                      \
@@ -268,8 +269,8 @@ union page_t {
     }                                                                          \
                                                                                \
     if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+      /* current state is in use; use the other one */                         \
+      stateref = (state_t *)&state_swap;                                       \
     } else {                                                                   \
       /* use current state */                                                  \
       stateref = (state_t *)&state;                                            \
-- 
2.43.0


From cdfb0b8029ea12c2f8c7d53e2637be2af58e4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 06/27] fix: a push waiting for another writer never reloads
 the shared state

---
 src/atomic_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index d6d4e6b..b32528e 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -255,11 +255,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
+    /* give a chance to complete the last push if it is not ready yet */       \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
-- 
2.43.0


From 24a6af08ee3ea3500008edf4faf7af3060474776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 07/27] fix: synchronize reports gaps where there are none and
 misses a full lap

---
 src/reader.h | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..d051294 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -223,38 +223,24 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
          "timestamp=%lu, (bottom,top)=(%u,%u)\n",
          t < b, b < t, t == b, b, t, ts, ts_t, timestamp, bottom, top);
 
-  if (t < b) {
-    DEBUGV("1-> t < b (with overlap)\n");
-    
-    if (gap() == GAP) {
+  if (t != b) {
+    DEBUGV("1-> t != b\n");
+
+    // the oldest event of the reader is the free slot or was overwritten
+    if (bottom == t || gap() != NO_GAP) {
       DEBUGV("gap!\n");
       top = t;
       bottom = b;
       timestamp = ts;
       return GAP;
     }
-    
+
     // update top (no gap found)
     top = t;
     return NO_GAP; // SOFT_SYNC
 
-  } else if (b < t) {
-    DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
-      // update top (no gap found)
-      top = t;
-
-      return NO_GAP; // SOFT_SYNC
-    } else {
-      // reader is out of sync
-      top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
-
-      return GAP; // HARD_SYNC
-    }
   } else {
-    DEBUGV("3-> b == t (initial case)\n");
+    DEBUGV("2-> b == t (initial case)\n");
     /*
      * This can be triggered in the begining to syncronize the reader for
      * the first time.
-- 
2.43.0


From 5410cfcaaa565f2f7bcf3bfbb843fe934683d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 08/27] fix: pull of an overwritten event reports it as
 available

---
 src/reader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.h b/src/reader.h
index d051294..a59c354 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -165,6 +165,9 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event, bottom) != buffer.OK)
       return READ_ERROR;
 
+    // the oldest event may have been overwritten since the last operation
+    bool overrun = gap() != NO_GAP;
+
     // update local bottom
     increment_reader_bottom();
 
@@ -175,7 +178,7 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event_next, bottom) == buffer.OK) {
       timestamp = event_next.getTime();
 
-      if (gap())
+      if (overrun || gap())
         return READER_OVERFLOW;
       else
         return AVAILABLE;
-- 
2.43.0


From 6d6919d692c61e60c98efa525e22e0346110e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 09/27] fix: connective macros mis-associate nested and
 embedded expressions

---
 src/rmtld3/rmtld3.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..e876f40 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
-- 
2.43.0


From 189f677c3ee0c442f7a1561cef3435d7218d3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 10/27] fix: read_previous never wraps around the start of the
 ring

---
 src/rmtld3/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..1492f13 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,7 +251,7 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
                                                  : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
-- 
2.43.0


From 9397fe8916476e5a5277b2be6d55465618a092dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 11/27] fix: set leaves the cursor one event late when moving
 backwards

---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 1492f13..a3a95e8 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -132,6 +132,7 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      decrement_cursor();
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From 764842b1ebd9a273da5f58a325b59d09b79ed65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 12/27] fix: duration counts time outside its interval

---
 src/rmtld3/terms.h | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..97551ed 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -23,6 +23,8 @@
  * This header file contain the template to construct the RMTLD3 terms.
  */
 
+#include <algorithm>
+
 /* Duration term */
 template <typename T, typename E, timespan t_upper>
 duration duration_term(T &trace, timespan &t) {
@@ -56,30 +58,20 @@ duration duration_term(T &trace, timespan &t) {
     trace.read(event);
     auto c_time = event.getTime();
 
-    // find lower condition
-    if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
-      acc.second = symbol.second;
-
-      DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
-    }
-    // find upper condition
-    else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-      acc.first += (t + t_upper - c_time_prev) * symbol.first;
+    // count the part of [c_time_prev, c_time) inside the interval
+    auto lower = std::max<timespan>(c_time_prev, t);
+    auto upper = std::min<timespan>(c_time, t + t_upper);
+    if (lower < upper) {
+      acc.first += (upper - lower) * symbol.first;
       acc.second |= symbol.second;
+    }
 
-      DEBUGV_RMTLD3("dur upper(%ld)\n", c_time);
-
+    // find upper condition
+    if (t + t_upper < c_time) {
       DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
                     c_time_prev, c_time);
       break;
     }
-    // in between
-    else {
-
-      acc.first += (c_time - c_time_prev) * symbol.first;
-      acc.second |= symbol.second;
-    }
 
     symbol = indicator_function(trace, c_time);
 
-- 
2.43.0


From 81afe925d49def2655846d0183debb1091ae7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 13/27] fix: formulas.h and terms.h have no include guard and
 terms.h does not stand alone

---
 src/rmtld3/formulas.h | 8 +++++++-
 src/rmtld3/terms.h    | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..b9d4727 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -23,6 +23,10 @@
  * This header file contain the template to construct the RMTLD3 formulas.
  */
 
+#ifndef _RMTLD3_FORMULAS_H_
+#define _RMTLD3_FORMULAS_H_
+
+#include <type_traits>
 #include <utility>
 
 #include "rmtld3.h"
@@ -471,4 +475,6 @@ three_valued_type historically_less(T &trace, timespan &t) {
                               // of the subformula
 
   return b3_not(sf);
-}
\ No newline at end of file
+}
+
+#endif //_RMTLD3_FORMULAS_H_
diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 97551ed..4c87b43 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -23,8 +23,13 @@
  * This header file contain the template to construct the RMTLD3 terms.
  */
 
+#ifndef _RMTLD3_TERMS_H_
+#define _RMTLD3_TERMS_H_
+
 #include <algorithm>
 
+#include "rmtld3.h"
+
 /* Duration term */
 template <typename T, typename E, timespan t_upper>
 duration duration_term(T &trace, timespan &t) {
@@ -86,4 +91,6 @@ duration duration_term(T &trace, timespan &t) {
   trace.set_cursor(c_duration); // reset the cursor changes during the evaluation of the subformula
 
   return acc;
-}
\ No newline at end of file
+}
+
+#endif //_RMTLD3_TERMS_H_
-- 
2.43.0


From bf6125fd67dbfe946312b3effae9b8a49b8b914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 14/27] fix: a failing call of the task creation is made twice

---
 src/task_compat.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..c5f7a50 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -70,22 +70,31 @@
 #define P_OK 0
 
 #define pcheck(val)                                                            \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Error: %d\n", val);                                                \
-    return val;                                                                \
+  {                                                                            \
+    int _err = (val);                                                          \
+    if (_err != P_OK) {                                                        \
+      DEBUGV("Error: %d\n", _err);                                             \
+      return _err;                                                             \
+    }                                                                          \
   }
 
 #define pcheck_print(val, checkval, extra_action)                              \
-  if (val != checkval) {                                                       \
-    DEBUGV("Error: %d\n", val);                                                \
-    extra_action                                                               \
+  {                                                                            \
+    int _err = (val);                                                          \
+    if (_err != (checkval)) {                                                  \
+      DEBUGV("Error: %d\n", _err);                                             \
+      extra_action                                                             \
+    }                                                                          \
   }
 
 #define pcheck_attr(val, attr)                                                 \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Destroying ERROR:%d\n", val);                                      \
-    pthread_attr_destroy(attr);                                                \
-    return val;                                                                \
+  {                                                                            \
+    int _err = (val);                                                          \
+    if (_err != P_OK) {                                                        \
+      DEBUGV("Destroying ERROR:%d\n", _err);                                   \
+      pthread_attr_destroy(attr);                                              \
+      return _err;                                                             \
+    }                                                                          \
   }
 
 enum status { ACTIVATE, UNACTIVATE, RUNNING, DELAY, ABORT, ABORTED };
-- 
2.43.0


From ef1ea9765eb8f0daf2cc9e5331057d59ff6478c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 15/27] fix: the task status is reset after its thread may have
 started

---
 src/task_compat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index c5f7a50..3082e91 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -154,6 +154,9 @@ struct task {
     pthread_attr_t attribute = {0};
     struct sched_param parameter;
 
+    // the thread reads the status as soon as it starts
+    st = UNACTIVATE;
+
     DEBUGV("#Task(%s) creation sizeof(pthread_mutex_t)=%d "
            "sizeof(pthread_cond_t)=%d ",
            tid, sizeof(pthread_mutex_t), sizeof(pthread_cond_t));
@@ -177,8 +180,6 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
-- 
2.43.0


From c583b259089597b99021064ce93062b984e9a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 16/27] fix: a task disabled before it runs never ends or runs
 anyway

---
 src/task_compat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 3082e91..0e551aa 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -202,9 +202,12 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            // do not overwrite a concurrent abort request
+            if (__sync_bool_compare_and_swap(&ttask->st, ACTIVATE, RUNNING))
               break;
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
             }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
-- 
2.43.0


From 12d6d2a140e5771a6224ae7b92e02ebfebd84189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 17/27] fix: enabling or disabling a monitor overwrites its
 later status

---
 src/periodicmonitor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..128704d 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,14 +143,14 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // only a dormant task can be activated
+  __sync_bool_compare_and_swap(&_task.st, UNACTIVATE, ACTIVATE);
 
   return P_OK;
 }
 template <char... name> int RTML_monitor<name...>::disable() {
 
-  if (_task.st != ABORT)
+  if (_task.st != ABORT && _task.st != ABORTED)
     _task.st = ABORT;
 
   return P_OK;
-- 
2.43.0


From a2b603b8654a5c8c25ad6808779a797f264fc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 18/27] fix: a spurious wake-up ends the task with its mutex
 locked

---
 src/task_compat.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 0e551aa..72d5b69 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -251,10 +251,13 @@ struct task {
             }
 
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            int err;
+            // waking up before the release time is spurious
+            while ((err = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx,
+                                                 &next)) == P_OK)
+              ;
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(err, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From f8430526cf7f8ee950774ac51f691aec1dcebaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 19/27] fix: always and historically evaluate their subformula
 twice

---
 src/rmtld3/formulas.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index b9d4727..91a04ec 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -287,7 +287,9 @@ three_valued_type always_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not is a macro that evaluates its argument more than once
+      three_valued_type phi1 = E::eval_phi1(trace, t);
+      return b3_not(phi1);
     };
   };
 
@@ -465,7 +467,9 @@ three_valued_type historically_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not is a macro that evaluates its argument more than once
+      three_valued_type phi1 = E::eval_phi1(trace, t);
+      return b3_not(phi1);
     };
   };
 
-- 
2.43.0


From 573a25e6af1ab470a388e7b54b8bf34aac705e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 20/27] fix: set takes the free slot for an event when the
 cursor is at the end of the window

---
 src/rmtld3/reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index a3a95e8..312a219 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -131,7 +131,8 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
-    if (e.getTime() <= t && t < ee.getTime()) {
+    // at the end of the window there is no event under the cursor
+    if (length() > 0 && e.getTime() <= t && t < ee.getTime()) {
       decrement_cursor();
       return R::AVAILABLE;
     }
-- 
2.43.0


From a1a793c78587aa5345ca10b3878bed2544f3fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 21/27] fix: a monitor's identifier is set after its task has
 been started

---
 src/periodicmonitor.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 128704d..9a97e28 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -46,6 +46,10 @@ extern "C" void __attribute__((weak)) __cxa_pure_virtual() {
  * @date
  */
 template <char... name> class RTML_monitor {
+public:
+  /** Stores id; set before the task, whose thread may read it */
+  const char id[5] = {name...};
+
 private:
   /** Points to the monitor thread in the OS. */
   __task _task;
@@ -70,9 +74,6 @@ protected:
   virtual void run() = 0;
 
 public:
-  /** Stores id */
-  const char id[5] = {name...};
-
   /**
    * Instantiates a new monitor with a given period.
    *
-- 
2.43.0


From cf3be5c79bb0a54ac6d1c439221902adb8e0c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 22/27] fix: disabling a monitor twice at once can undo its end

---
 src/periodicmonitor.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 9a97e28..ed4f9cf 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -151,8 +151,11 @@ template <char... name> int RTML_monitor<name...>::enable() {
 }
 template <char... name> int RTML_monitor<name...>::disable() {
 
-  if (_task.st != ABORT && _task.st != ABORTED)
-    _task.st = ABORT;
+  // do not overwrite an abort that the task has concluded meanwhile
+  status st = _task.st;
+  while (st != ABORT && st != ABORTED &&
+         !__sync_bool_compare_and_swap(&_task.st, st, ABORT))
+    st = _task.st;
 
   return P_OK;
 }
-- 
2.43.0


From 497aecdfad6ea9abc43e3198814e5035532324a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 23/27] fix: a release time can mix two periods when the period
 is set meanwhile

---
 src/task_compat.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 72d5b69..58c8a88 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -228,8 +228,10 @@ struct task {
 
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
-            // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            // convert useconds_t to struct timespec; read the period once, it
+            // may be set concurrently
+            const useconds_t period = ttask->period;
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0


From f8ec4d0af96fefbeb8292a5f64851a4e315b5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:15 +0000
Subject: [PATCH 24/27] fix: YIELD was defined for 64-bit x86 only, so the
 library did not compile on 32-bit x86

---
 src/atomic_compat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index b32528e..cb33dd8 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -170,9 +170,10 @@ union page_t {
 #elif defined(__x86_64__)
 #define NATIVE_POINTER_TYPE uint64_t
 #define NATIVE_ATOMIC_POINTER __int128
+#endif
+
 #define YIELD()                                                                \
   { sched_yield(); }
-#endif
 
 /*
  * This union type is used to split a 64/128 bit wide integer into two equaly
-- 
2.43.0


From 31c4c0b9d37924492ee9a25438e548e318f58ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:45 +0000
Subject: [PATCH 25/27] fix: a monitor name of five characters was not
 terminated, and the debug output read past it

---
 src/periodicmonitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index ed4f9cf..3afa213 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -48,7 +48,7 @@ extern "C" void __attribute__((weak)) __cxa_pure_virtual() {
 template <char... name> class RTML_monitor {
 public:
   /** Stores id; set before the task, whose thread may read it */
-  const char id[5] = {name...};
+  const char id[sizeof...(name) + 1] = {name...};
 
 private:
   /** Points to the monitor thread in the OS. */
-- 
2.43.0


From bb636e5df7c052447df26e2765128f083fbedf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 26/27] fix: a debug message read the 32-bit period as a 64-bit
 number

---
 src/task_compat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 58c8a88..d039fef 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -226,7 +226,7 @@ struct task {
             DEBUGV3_APPEND("sizeof(struct timespec)=0x%x job_time%lus.%luns ",
                            sizeof(struct timespec), L(now.tv_sec), now.tv_nsec);
 
-            DEBUGV3_APPEND("period=%luus ", ttask->period);
+            DEBUGV3_APPEND("period=%uus ", ttask->period);
 
             // convert useconds_t to struct timespec; read the period once, it
             // may be set concurrently
-- 
2.43.0


From 28b25a917262f20471f90ada25afa7da7892d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:46 +0000
Subject: [PATCH 27/27] fix: a push into the buffer itself left the next push
 of a writer waiting for ever

---
 src/atomic_compat.h  | 9 +++++++++
 src/circularbuffer.h | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index cb33dd8..5e26b7b 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -49,6 +49,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_OWN()
+#define ATOMIC_PAGE_READY(p, node)
 #define ATOMIC_PAGE_SWAP()
 
 #define ATOMIC(body)                                                           \
@@ -239,6 +240,14 @@ union page_t {
     std::atomic_exchange(&page, own);                                          \
   }
 
+/* the last push is the one of node into p, and is complete */
+#define ATOMIC_PAGE_READY(p, node)                                             \
+  {                                                                            \
+    state_t *s = (state_t *)((page_t)std::atomic_load(&page)).stateref;        \
+    s->pos = p;                                                                \
+    s->event = node;                                                           \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 26daf4a..a786946 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -183,6 +183,9 @@ RTML_buffer<T, N>::push(const event_t &node) {
   size_t &b = _bottom();
   array[t] = node;
 
+  // a writer waits for the last push; it would not find this one
+  ATOMIC_PAGE_READY(t, node);
+
   increment_top();
 
   bool p = t == b;
-- 
2.43.0

