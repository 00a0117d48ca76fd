// C16: condition waits under every interleaving.
//
// WAITERS threads take one of `items` each, waiting while there is none; the
// others add and wake.  ADD: how many a waker adds; BCAST: wake all; OUTSIDE:
// wake after unlocking; TIMED: waits have a deadline; QUIET: the other threads
// only use the lock.
#include "il.h"

#ifndef BCAST
#define BCAST 0
#endif
#ifndef OUTSIDE
#define OUTSIDE 0
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef QUIET
#define QUIET 0
#endif
#ifndef ADD
#define ADD 1
#endif
#ifndef REWAIT
#define REWAIT 2
#endif

static a0_mtx_t m;
static a0_cnd_t c;
GHOST static int items, holder, holder_died, waiting[5], wakes;

static void held(int me) {
  vh_assert(!holder || il_dead(holder), "one holder at a time");
  holder = me;
}
static void take(int me) {
  int e = code(a0_mtx_lock(&m));
  vh_assume(e == 0 || e == EOWNERDEAD);
  held(me);
  a0_time_mono_t deadline = {{1, 0}};
  // Written out, so that waiting again costs no extra round.
#define WAIT_ONCE                                                                          \
  if (items < 1) {                                                                         \
    holder = 0;                                                                            \
    waiting[me] = 1;                                                                       \
    e = code(TIMED ? a0_cnd_timedwait(&c, &m, &deadline) : a0_cnd_wait(&c, &m));           \
    waiting[me] = 0;                                                                       \
    held(me);                                                                              \
    vh_assert(e == 0 || e == EOWNERDEAD || (TIMED && e == ETIMEDOUT), "a wait ends woken or timed out"); \
    vh_assert(e != ETIMEDOUT || il_timeouts(me), "a wait times out only after its deadline"); \
    vh_assert(e != EOWNERDEAD || holder_died, "a waiter is told of a death only after one"); \
    if (QUIET) vh_assert(e == ETIMEDOUT || il_intr(me), "a wait nobody wakes says it timed out"); \
    if (e == ETIMEDOUT) {                                                                  \
      vh_reach("timed out");                                                               \
      if (holder_died) {                                                                   \
        vh_reach("timed out after a death");                                               \
      }                                                                                    \
    }                                                                                      \
  }
  WAIT_ONCE
#if REWAIT > 1
  WAIT_ONCE
#endif
  vh_yield_();
  vh_assert(holder == me, "the waiter holds the lock again");
  if (items > 0) {
    items--;
    vh_reach("woken");
  }
  holder = 0;
  vh_assert(code(a0_mtx_unlock(&m)) == 0, "the waiter can unlock");
}
static void add(int me) {
  int e = code(a0_mtx_lock(&m));
  vh_assert(e == 0 || e == EOWNERDEAD, "a lock is taken");
  held(me);
  if (!QUIET) items += ADD;
  vh_yield_();
  vh_assert(holder == me, "the holder stays alone");
  if (!OUTSIDE && !QUIET) vh_assert(code(BCAST ? a0_cnd_broadcast(&c, &m) : a0_cnd_signal(&c, &m)) == 0, "waking works");
  holder = 0;
  vh_assert(code(a0_mtx_unlock(&m)) == 0, "the holder can unlock");
  if (OUTSIDE && !QUIET) vh_assert(code(BCAST ? a0_cnd_broadcast(&c, &m) : a0_cnd_signal(&c, &m)) == 0, "waking works");
}
void vt_1(void) { take(1); }
#if WAITERS > 1
void vt_2(void) { take(2); }
#else
void vt_2(void) { add(2); }
#endif
#if WAITERS > 2
void vt_3(void) { take(3); }
#elif THREADS > 2
void vt_3(void) { add(3); }
#endif
#if THREADS > 3
void vt_4(void) { add(4); }
#endif
void vt_died(void) {
  holder_died |= 1;
}
void vt_end(void) {
  if (!holder_died) {
    for (int t = 1; t <= THREADS; t++) {
      if (t > WAITERS) vh_assert(il_done(t), "nobody sleeps on a free lock");
      if (t <= WAITERS) vh_assert(il_done(t) || (waiting[t] && items < 1), "no waiter sleeps through a wakeup");
    }
  } else {
    for (int t = 1; t <= THREADS; t++) vh_assert(il_done(t) || il_dead(t) || waiting[t], "nobody sleeps on a free lock");
  }
}
