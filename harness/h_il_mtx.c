// C14: the shared mutex under every interleaving and death of a thread.
#include "il.h"

static a0_mtx_t m;
GHOST static int holder, owed, maybe, entered, where[5];
enum { IDLE, TAKING, HOLDING, RELEASING };
enum { K_LOCK, K_TRY, K_TIMED, K_RELOCK, K_ROGUE };

static int idle_but(int me) {
  int n = 1;
  for (int t = 1; t <= THREADS; t++) n &= (t == me) | il_dead(t) | (where[t] == IDLE);
  return n;
}
static void use(int me, int kind) {
  if (kind == K_ROGUE) {
    vh_assert(code(a0_mtx_unlock(&m)) == EPERM, "unlocking without owning is refused");
    vh_reach("refused");
    return;
  }
  int free = idle_but(me), seen = entered;
  a0_time_mono_t deadline = {{1, 0}};
  entered++;
  where[me] = TAKING;
  a0_err_t err = kind == K_TRY ? a0_mtx_trylock(&m) : kind == K_TIMED ? a0_mtx_timedlock(&m, &deadline) : a0_mtx_lock(&m);
  int e = code(err);
  if (e == 0 || e == EOWNERDEAD) {
    vh_assert(!holder || il_dead(holder), "one holder at a time");
    vh_assert(e == EOWNERDEAD || !owed, "the locker after a dead holder is told");
    vh_assert(e == 0 || owed || maybe, "a locker is told only after a death");
    if (e) {
      vh_reach("told");
    }
    holder = me;
    owed = maybe = 0;
    where[me] = HOLDING;
    vh_yield_();
    vh_assert(holder == me, "the holder stays alone");
    if (kind == K_RELOCK) {
      vh_assert(code(a0_mtx_lock(&m)) == EDEADLK, "relocking is refused");
      vh_assert(holder == me, "the holder stays alone");
    }
    holder = 0;
    where[me] = RELEASING;
    vh_assert(code(a0_mtx_unlock(&m)) == 0, "the owner unlocks");
    where[me] = IDLE;
    return;
  }
  where[me] = IDLE;
  vh_assert(kind != K_LOCK && kind != K_RELOCK, "a plain lock does not fail");
  if (kind == K_TRY) {
    vh_assert(e == EBUSY, "a failed try says busy");
    vh_assert(!free || entered != seen + 1, "a try fails only while another thread uses the lock");
    vh_reach("busy");
  } else {
    vh_assert(e == ETIMEDOUT && il_timeouts(me), "a failed timed lock timed out");
    vh_reach("timed out");
  }
}
#ifndef K1
#define K1 0
#endif
#ifndef K2
#define K2 0
#endif
#ifndef K3
#define K3 0
#endif
// Each USE is a separate place in the program, so that repeating costs no extra round.
#define TWICE(N, T, K) do { use(T, K); if (N > 1) use(T, K); } while (0)
void vt_1(void) { TWICE(R1, 1, K1); }
void vt_2(void) { TWICE(R2, 2, K2); }
#if THREADS > 2
void vt_3(void) { TWICE(R3, 3, K3); }
#endif
void vt_died(void) {
  int t = il_dying();
  if (where[t] == HOLDING) owed = 1;
  if (where[t] == TAKING || where[t] == RELEASING) maybe = 1;
}
void vt_end(void) {
  for (int t = 1; t <= THREADS; t++) vh_assert(il_done(t) || il_dead(t), "no thread sleeps forever");
}
