// Threads and the kernel's side of futexes, robust lists and thread death.
//
// Shared by the solver encoding (the C that ilv writes) and by native replay.
#include <errno.h>
#include <linux/futex.h>
#include <stdint.h>
#include <sys/syscall.h>

#include "vh.h"

#ifdef IL_NATIVE
#define IL_API
#else
#define IL_API static
#endif
static uint32_t ld4(uint64_t a);
static uint64_t ld8(uint64_t a);
static void st4(uint64_t a, uint32_t v);

enum { K_RUN, K_WAIT, K_REQUEUE, K_PI, K_GONE };
static uint8_t k_st[NT + 1];        // running or asleep, and how
static uint64_t k_a[NT + 1];        // the futex slept on
static uint64_t k_a2[NT + 1];       // the lock a condition waiter is to be moved to
static uint8_t k_timed[NT + 1];     // asleep with a deadline
static uint8_t k_cond[NT + 1];      // asleep in a condition wait
static uint8_t k_owner[NT + 1];     // K_PI: the thread that owns the lock
static uint32_t k_err[NT + 1];      // result of the last system call
static uint64_t k_ret[NT + 1];
static uint64_t k_robust[NT + 1];   // registered list head
static uint8_t il_done_[NT + 1], il_dead_[NT + 1], il_timeouts_[NT + 1], il_intr_[NT + 1];
static int il_dying_;
static uint64_t il_bad, il_seen;

#define TID(T) (100 + (T))

IL_API int il_done(int t) { return il_done_[t]; }
IL_API int il_dead(int t) { return il_dead_[t]; }
IL_API int il_asleep(int t) { return k_st[t] != K_RUN && k_st[t] != K_GONE; }
IL_API int il_timeouts(int t) { return il_timeouts_[t]; }
IL_API int il_intr(int t) { return il_intr_[t]; }
IL_API int il_dying(void) { return il_dying_; }
// 1 if the thread with lock value v is alive or the value names nobody.
static int k_thread(uint32_t v) {
  for (int t = 1; t <= NT; t++) {
    if ((v & FUTEX_TID_MASK) == TID(t) && !il_dead_[t]) return t;
  }
  return 0;
}

static int k_is(int t, int st, uint64_t a) { return k_st[t] == st && k_a[t] == a; }
static int k_some(int st, uint64_t a) {
  int n = 0;
  for (int t = 1; t <= NT; t++) n |= k_is(t, st, a);
  return n;
}
// Any one of the threads asleep that way (priorities can put any first), or 0.
static int k_pick(int st, uint64_t a) {
  if (!k_some(st, a)) return 0;
#if NT == 2
  return k_is(1, st, a) ? 1 : 2;  // never both: one of the two is running
#else
  uint8_t c = vh_u8();
  int ok = 0;
  for (int t = 1; t <= NT; t++) ok |= (c == t) & k_is(t, st, a);
  vh_assume(ok);
  return c;
#endif
}
static void k_wake(int t, uint32_t err) {
  for (int i = 1; i <= NT; i++) {
    if (i == t) {
      k_st[i] = K_RUN;
      k_err[i] = err;
      k_ret[i] = 0;
    }
  }
}
static void k_sleep(int t, int st, uint64_t a, uint64_t a2, int timed, int cond) {
  k_st[t] = st;
  k_a[t] = a;
  k_a2[t] = a2;
  k_timed[t] = timed;
  k_cond[t] = cond;
  k_err[t] = 0;
}
// Hands the lock to a sleeping thread.
static void k_grant(uint64_t a, int w, uint32_t flags) {
  st4(a, TID(w) | FUTEX_WAITERS | flags);
  k_wake(w, 0);
  for (int t = 1; t <= NT; t++) {
    if (k_is(t, K_PI, a)) k_owner[t] = w;
  }
}
static int k_pi_owner(uint64_t a) {
  int o = 0;
  for (int t = 1; t <= NT; t++) {
    if (k_is(t, K_PI, a)) o = k_owner[t];
  }
  return o;
}
// futex_lock_pi_atomic on behalf of w: 0 taken, EAGAIN has to wait (WAITERS is set), else refused.
static uint32_t k_lock_atomic(uint64_t a, int w, int set_waiters) {
  uint32_t v = ld4(a);
  if ((v & FUTEX_TID_MASK) == TID(w)) return EDEADLK;
  if (k_some(K_PI, a)) {
    if ((v & FUTEX_TID_MASK) != TID(k_pi_owner(a))) return EINVAL;
    return EAGAIN;
  }
  if (!(v & FUTEX_TID_MASK)) {
    st4(a, (v & FUTEX_OWNER_DIED) | TID(w) | (set_waiters ? FUTEX_WAITERS : 0));
    return 0;
  }
  st4(a, v | FUTEX_WAITERS);
  return k_thread(v) ? EAGAIN : ESRCH;
}
static void k_queue_pi(uint64_t a, int t, int timed, int cond) {
  int o = k_some(K_PI, a) ? k_pi_owner(a) : k_thread(ld4(a));
  for (int i = 1; i <= NT; i++) {
    if (i == t) {
      k_sleep(i, K_PI, a, 0, timed, cond);
      k_owner[i] = o;
    }
  }
}
static int k_futex_wake(uint64_t a, uint32_t n) {
  int woken = 0;
  for (int i = 1; i <= NT; i++) {
    if ((uint32_t)woken < n) {
      int w = k_pick(K_WAIT, a);
      if (w) {
        k_wake(w, 0);
        woken++;
      }
    }
  }
  return woken;
}

// Returns an errno value, with k_ret the result; may leave the thread asleep.
static uint32_t k_futex(int t, uint64_t a, uint32_t op, uint32_t val, uint64_t tv, uint64_t a2, uint32_t val3) {
  switch (op & ~FUTEX_PRIVATE_FLAG) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
      if (ld4(a) != val) return EAGAIN;
      k_sleep(t, K_WAIT, a, 0, tv != 0, 0);
      return 0;
    case FUTEX_WAKE:
      k_ret[t] = k_futex_wake(a, val);
      return 0;
    case FUTEX_LOCK_PI: {
      uint32_t e = k_lock_atomic(a, t, 0);
      if (e == EAGAIN) {
        k_queue_pi(a, t, tv != 0, 0);
        return 0;
      }
      return e;
    }
    case FUTEX_TRYLOCK_PI:
      return k_lock_atomic(a, t, 0);
    case FUTEX_UNLOCK_PI: {
      uint32_t v = ld4(a);
      if ((v & FUTEX_TID_MASK) != TID(t)) return EPERM;
      if (k_some(K_PI, a)) {
        if (k_pi_owner(a) != t) return EINVAL;
        k_grant(a, k_pick(K_PI, a), 0);
      } else {
        st4(a, 0);
      }
      return 0;
    }
    case FUTEX_WAIT_REQUEUE_PI:
      if (a == a2) return EINVAL;
      if (ld4(a) != val) return EAGAIN;
      k_sleep(t, K_REQUEUE, a, a2, tv != 0, 1);
      return 0;
    case FUTEX_CMP_REQUEUE_PI: {
      if (a == a2 || val != 1) return EINVAL;
      if (ld4(a) != val3) return EAGAIN;
      uint32_t n = 0;
      for (int i = 1; i <= NT; i++) {
        if (n < 1 || n - 1 < (uint32_t)tv) {
          int w = k_pick(K_REQUEUE, a);
          if (w) {
            for (int j = 1; j <= NT; j++) {
              if (j == w && k_a2[j] != a2) return EINVAL;
            }
            uint32_t e = k_lock_atomic(a2, w, tv > 0);
            if (e == 0) {
              k_wake(w, 0);
            } else if (e == EAGAIN) {
              for (int j = 1; j <= NT; j++) {
                if (j == w) k_queue_pi(a2, j, k_timed[j], 1);
              }
            } else {
              return e;
            }
            n++;
          }
        }
      }
      k_ret[t] = n;
      return 0;
    }
  }
  return ENOSYS;
}
static void k_syscall(int t, uint64_t nr, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6) {
  k_err[t] = 0;
  k_ret[t] = 0;
  if (nr == SYS_futex) {
    uint32_t e = k_futex(t, a1, (uint32_t)a2, (uint32_t)a3, a4, a5, (uint32_t)a6);
    if (k_st[t] == K_RUN) k_err[t] = e;
  } else if (nr == SYS_gettid) {
    k_ret[t] = TID(t);
  } else if (nr == SYS_set_robust_list) {
    k_robust[t] = a1;
  } else {
    k_err[t] = ENOSYS;
  }
}
// A sleep ends without being granted: the deadline passed, or a signal interrupted it.
static void k_expire(int t, int interrupted) {
  if (interrupted) il_intr_[t] = 1;
  else il_timeouts_[t] = 1;
  k_wake(t, interrupted ? (k_cond[t] ? EAGAIN : EINTR) : ETIMEDOUT);
}
static void k_futex_death(uint64_t a, int t, int pending) {
  uint32_t v = ld4(a);
  uint32_t tid = v & FUTEX_TID_MASK;
  if (pending && !tid) {
    k_futex_wake(a, 1);
    return;
  }
  if (tid != TID(t)) return;
  st4(a, (v & FUTEX_WAITERS) | FUTEX_OWNER_DIED);
  if (v & FUTEX_WAITERS) k_futex_wake(a, 1);
}
#ifndef LISTMAX
#define LISTMAX 2
#endif
static void k_die(int t) {
  il_dead_[t] = 1;
  k_st[t] = K_GONE;
  if (k_robust[t]) {
    uint64_t head = k_robust[t], e = ld8(head), off = ld8(head + 8), pend = ld8(head + 16);
    for (int i = 0; i < LISTMAX; i++) {
      if (e != head) {
        uint64_t next = ld8(e);
        if (e != pend) k_futex_death(e + off, t, 0);
        e = next;
      }
    }
    vh_assert(e == head, "the list of held locks ends");
    if (pend) k_futex_death(pend + off, t, 1);
  }
  // Locks with sleepers the kernel knows the thread to own.
  for (int i = 1; i <= NT; i++) {
    if (k_st[i] == K_PI && k_owner[i] == t) {
      uint64_t a = k_a[i];
      k_grant(a, k_pick(K_PI, a), FUTEX_OWNER_DIED);
    }
  }
}
