// C18: deadman locks under every interleaving, death and shutdown.
//
// Threads do R1, R2, R3: take and release, try, take with a deadline, take and
// keep, wait until taken and then until released (with or without deadlines),
// only wait until taken, or shut down thread 1's handle.
#include "il.h"
#include <a0/deadman_mtx.h>

enum { TAKE, TRY, TIMED, KEEP, WATCH, TWATCH, SEE, SHUT };

static a0_deadman_mtx_shared_token_t shared;
static a0_deadman_mtx_t d[5];

enum { NONE, HOLDING, RELEASING, OVER };
GHOST static uint64_t tkn[5];       // by thread; 0: the one before all of them
GHOST static int hold[5];           // what became of it
GHOST static int taking[5], seeing[5], watching[5], maydie[5];
GHOST static uint64_t want[5];
GHOST static int shut, holder;

static int has(int t) { return hold[t] == HOLDING && !il_dead(t); }
static int over(int t) { return hold[t] == OVER || (hold[t] && il_dead(t)); }

void vt_init(void) {
  shared._tkn = vh_sym(64);
  a0_deadman_mtx_init(&d[0], &shared);
  a0_deadman_mtx_init(&d[1], &shared);
  a0_deadman_mtx_init(&d[2], &shared);
  a0_deadman_mtx_init(&d[3], &shared);
  vh_assert(code(a0_deadman_mtx_trylock(&d[0])) == 0, "a free deadman is taken");
  a0_deadman_mtx_state_t s;
  a0_deadman_mtx_state(&d[0], &s);
  tkn[0] = s.tkn;
  vh_assert(code(a0_deadman_mtx_unlock(&d[0])) == 0, "the owner releases");
  hold[0] = OVER;
}
static void take(int me, int what) {
  a0_time_mono_t deadline = {{1, 0}};
  taking[me] = 1;
  int e = code(what == TRY ? a0_deadman_mtx_trylock(&d[me]) : what == TIMED ? a0_deadman_mtx_timedlock(&d[me], &deadline) : a0_deadman_mtx_lock(&d[me]));
  taking[me] = 0;
  if (e == 0 || e == EOWNERDEAD) {
    vh_assert(!holder || il_dead(holder), "one owner at a time");
    holder = me;
    hold[me] = HOLDING;
    vh_yield_();
    vh_assert(holder == me, "the owner stays alone");
    a0_deadman_mtx_state_t s;
    a0_deadman_mtx_state(&d[me], &s);
    vh_assert(s.is_owner && s.is_locked, "the owner sees that it owns");
    vh_assert(holder == me, "the owner stays alone");
    tkn[me] = s.tkn;
    for (int t = 0; t <= THREADS; t++) {
      if (t != me && hold[t]) vh_assert(tkn[t] != tkn[me] || (il_dead(t) && maydie[t]), "every acquisition has a token of its own");
    }
    if (e) {
      vh_reach("taken after a death");
    } else {
      vh_reach("taken");
    }
    maydie[me] = 0;
    if (what == KEEP) return;
    vh_yield_();
    holder = 0;
    hold[me] = RELEASING;
    vh_assert(code(a0_deadman_mtx_unlock(&d[me])) == 0, "the owner releases");
    hold[me] = OVER;
    return;
  }
  vh_assert(e != ESHUTDOWN || (me == 1 && shut), "a take is shut down only on request");
  if (what == TRY) {
    vh_assert(e == EBUSY || e == ESHUTDOWN, "a failed try says busy");
  } else if (what == TIMED) {
    vh_assert((e == ETIMEDOUT && il_timeouts(me)) || e == ESHUTDOWN, "a failed timed take timed out");
  } else {
    vh_assert(e == ESHUTDOWN, "a take does not fail");
  }
  if (e == ESHUTDOWN) {
    vh_reach("shut down");
  }
}
static void watch(int me, int what) {
  a0_time_mono_t deadline = {{1, 0}};
  int before[5];
  for (int t = 0; t <= THREADS; t++) before[t] = over(t);
  uint64_t k = vh_sym(64);
  seeing[me] = 1;
  int e = code(what == TWATCH ? a0_deadman_mtx_timedwait_locked(&d[me], &deadline, &k) : a0_deadman_mtx_wait_locked(&d[me], &k));
  seeing[me] = 0;
  vh_assert(e == 0 || (e == ETIMEDOUT && il_timeouts(me)) || (e == ESHUTDOWN && me == 1 && shut), "a wait ends for a reason");
  if (e == ESHUTDOWN) {
    vh_reach("shut down");
  }
  if (e) return;
  vh_reach("seen taken");
  for (int t = 0; t <= THREADS; t++) {
    if (before[t] && !(il_dead(t) && maydie[t])) vh_assert(k != tkn[t], "the token is not that of an earlier owner");
  }
  if (what == SEE) return;
  watching[me] = 1;
  want[me] = k;
  e = code(what == TWATCH ? a0_deadman_mtx_timedwait_unlocked(&d[me], &deadline, k) : a0_deadman_mtx_wait_unlocked(&d[me], k));
  watching[me] = 0;
  vh_assert(e == 0 || (e == ETIMEDOUT && il_timeouts(me)) || (e == ESHUTDOWN && me == 1 && shut), "a wait ends for a reason");
  if (e == 0) {
    for (int t = 1; t <= THREADS; t++) {
      if (has(t) && !maydie[t]) vh_assert(tkn[t] != k, "a wait for release does not end while that owner holds");
    }
    vh_reach("seen released");
  }
}
static void use(int me, int what) {
  maydie[me] = 1;  // until its token is known
  if (what == SHUT) {
    shut = 1;
    a0_deadman_mtx_shutdown(&d[1]);
  } else if (what >= WATCH) {
    watch(me, what);
  } else {
    take(me, what);
  }
}
void vt_1(void) { use(1, R1); }
void vt_2(void) { use(2, R2); }
#if THREADS > 2
void vt_3(void) { use(3, R3); }
#endif
void vt_died(void) {}
// Everything that sleeps now sleeps for ever.
void vt_end(void) {
  int held = 0;
  for (int t = 1; t <= THREADS; t++) held |= has(t);
  for (int t = 1; t <= THREADS; t++) {
    if (il_done(t) || il_dead(t)) continue;
    vh_assert(t != 1 || !shut, "shutdown ends waits");
    vh_assert(!taking[t] || held, "nobody waits for a free deadman");
    vh_assert(!seeing[t] || !held, "nobody waits for it to be taken while it is");
    if (watching[t]) {
      int his = 0;
      for (int o = 1; o <= THREADS; o++) his |= has(o) & (tkn[o] == want[t]);
      vh_assert(his, "nobody waits for a release that happened");
    }
  }
}
