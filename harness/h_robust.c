// C15: what the kernel would find if the thread died at any store.
//
// A history of STEPS operations locks and unlocks MTXS mutexes in every order
// (and may fork); then one more operation LAST on any of them is cut short
// before any of its stores, or inside any of its system calls.
#include <a0/deadman_mtx.h>
#include <a0/err.h>
#include <a0/mtx.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <time.h>

#include "sysmacro.h"
#include "vh.h"

#ifndef MTXS
#define MTXS 3
#endif
#define OTHER 55
#define NONE ((a0_mtx_t*)8)

enum { LOCK, TRY, TIMED, UNLOCK, WAIT, TWAIT, D_TRY, D_TAKE, D_RELEASE, D_SEE, D_WATCH };

// The last mutex is that of a deadman.
static a0_mtx_t m[MTXS];
static a0_deadman_mtx_shared_token_t stkn;
static a0_deadman_mtx_t dead;
static a0_cnd_t c;
static int me = 77;
static struct robust_list_head* head;
static void (*child[4])(void);
static int nchild, waits, midway;

static a0_mtx_t* mt(int k) { return k == MTXS ? &stkn._mtx : &m[k]; }
static int mine(int k) { return (mt(k)->ftx & FUTEX_TID_MASK) == me; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!*(int*)o) {
    *(int*)o = 1;
    fn();
  }
  return 0;
}
int pthread_atfork(void (*a)(void), void (*b)(void), void (*cc)(void)) {
  child[nchild++] = cc;
  return 0;
}
int clock_gettime(clockid_t clk, struct timespec* ts) {
  ts->tv_sec = 1000;
  ts->tv_nsec = 0;
  return 0;
}
// The kernel's walk.
static void check(int complete) {
  int on[MTXS + 1];
  for (int k = 0; k <= MTXS; k++) on[k] = 0;
  void* pend = 0;
  if (head) {
    vh_assert((char*)&m[0].ftx - (char*)&m[0] == head->futex_offset, "the kernel finds the lock word of an entry");
    struct robust_list* e = head->list.next;
    for (int i = 0; i <= MTXS + 1 && e != &head->list; i++) {
      int k = 0;
      while (k <= MTXS && (void*)e != (void*)mt(k)) k++;
      vh_assert(k <= MTXS, "the list holds only locks");
      vh_assert(!on[k], "a lock is on the list once");
      on[k] = 1;
      vh_assert(mine(k), "a lock on the list is held");
      e = e->next;
    }
    vh_assert(e == &head->list, "the list ends");
    pend = head->list_op_pending;
  }
  int held = 0;
  for (int k = 0; k <= MTXS; k++) {
    if (!mine(k)) continue;
    held++;
    vh_assert(on[k] || (!complete && pend == (void*)mt(k)), "a held lock is found");
    if (!on[k]) vh_reach("found as pending");
  }
  if (complete) vh_assert(pend == 0, "nothing is pending between operations");
  if (held > 1) vh_reach("several held");
}
// Another thread owns, owned or left the lock; its links are not ours to read.
static void others(int k, uint32_t word) {
  a0_mtx_t* x = mt(k);
  x->ftx = word;
  x->next = NONE;
  x->prev = NONE;
}
static int fails(int e) {
  errno = e;
  return -1;
}
static int which(long a) {
  int k = 0;
  while (k <= MTXS && a != (long)&mt(k)->ftx) k++;
  return k;
}
// The lock is given to this thread.
static void gain(int k) { mt(k)->ftx = me | (vh_concrete(vh_sym(1)) ? FUTEX_WAITERS : 0) | (vh_concrete(vh_sym(1)) ? FUTEX_OWNER_DIED : 0); }

static long kernel(long nr, long a, long b, long cc, long d, long e, long f) {
  if (nr == SYS_gettid) return me;
  if (nr == SYS_set_robust_list) {
    head = (void*)a;
    vh_shared(head, sizeof(*head));
    return 0;
  }
  if (nr != SYS_futex) return fails(ENOSYS);
  int k;
  switch (b & ~FUTEX_PRIVATE_FLAG) {
    case FUTEX_LOCK_PI:
    case FUTEX_TRYLOCK_PI:
      k = which(a);
      vh_assert(k <= MTXS, "the kernel is asked about a lock");
      if (mine(k)) return fails(EDEADLK);
      // A condition wait has no way to go on without the lock.
      switch (vh_concrete(vh_range(0, LAST == WAIT || LAST == TWAIT ? 0 : 2))) {
        case 0: gain(k); return 0;
        case 1: return fails((b & ~FUTEX_PRIVATE_FLAG) == FUTEX_TRYLOCK_PI ? EAGAIN : d ? ETIMEDOUT : EDEADLK);
        default: return fails(ENOMEM);
      }
    case FUTEX_UNLOCK_PI:
      k = which(a);
      vh_assert(k <= MTXS, "the kernel is asked about a lock");
      if (!mine(k)) return fails(EPERM);
      others(k, vh_concrete(vh_sym(1)) ? OTHER : 0);
      return 0;
    case FUTEX_WAIT_REQUEUE_PI:
      k = which(e);
      vh_assert(k <= MTXS, "the kernel is asked about a lock");
      switch (vh_concrete(vh_range(0, 2))) {
        case 0: gain(k); return 0;
        case 1: return fails(EAGAIN);
        default: return fails(d ? ETIMEDOUT : EAGAIN);
      }
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET:
      vh_assume(waits < 2);
      waits++;
      if (!mine(MTXS)) others(MTXS, vh_concrete(vh_sym(1)) ? (vh_concrete(vh_sym(1)) ? FUTEX_OWNER_DIED : 0) : OTHER | FUTEX_WAITERS);
      stkn._tkn++;
      if (d && vh_concrete(vh_sym(1))) return fails(ETIMEDOUT);
      return 0;
    default: return 0;
  }
}
long vh_syscall(long nr, long a, long b, long cc, long d, long e, long f) {
  if (midway && nr != SYS_set_robust_list) check(0);
  long r = kernel(nr, a, b, cc, d, e, f);
  if (midway) check(0);
  return r;
}

static int last_k;
static int result;
static void last(void* arg) {
  a0_mtx_t* x = mt(last_k);
  a0_time_mono_t deadline = {{2000, 0}};
  uint64_t t = 0;
  midway = 1;
  switch (LAST) {
    case LOCK: result = a0_mtx_lock(x); break;
    case TRY: result = a0_mtx_trylock(x); break;
    case TIMED: result = a0_mtx_timedlock(x, &deadline); break;
    case UNLOCK: result = a0_mtx_unlock(x); break;
    case WAIT: result = a0_cnd_wait(&c, x); break;
    case TWAIT: result = a0_cnd_timedwait(&c, x, &deadline); break;
    case D_TRY: result = a0_deadman_mtx_trylock(&dead); break;
    case D_TAKE: result = a0_deadman_mtx_timedlock(&dead, &deadline); break;
    case D_RELEASE: result = a0_deadman_mtx_unlock(&dead); break;
    case D_SEE: result = a0_deadman_mtx_timedwait_locked(&dead, &deadline, &t); break;
    case D_WATCH: result = a0_deadman_mtx_timedwait_unlocked(&dead, &deadline, stkn._tkn); break;
  }
  midway = 0;
}

int main() {
  for (int k = 0; k <= MTXS; k++) others(k, 0);
  a0_deadman_mtx_init(&dead, &stkn);
  int used = 0, forked = 0;
  for (int s = 0; s < STEPS; s++) {
    // A mutex already used, one not used yet, the deadman, or a fork.
    int hi = used < MTXS ? used : MTXS - 1;
    int k = vh_concrete(vh_range(0, hi + 2));
    if (k == hi + 1) {
      k = MTXS;
    } else if (k == hi + 2) {
      vh_assume(!forked && s > 0);
      forked = 1;
      me = 78;
      head = 0;
      dead._is_owner = false;
      for (int i = 0; i < nchild; i++) {
        if (child[i]) child[i]();
      }
      // The parent goes on using its locks.
      for (int i = 0; i <= MTXS; i++) {
        if ((mt(i)->ftx & FUTEX_TID_MASK) == 77) others(i, 77);
      }
      vh_reach("forked");
      continue;
    } else if (k == used) {
      used++;
    }
    if (mine(k)) {
      vh_assert((k == MTXS ? a0_deadman_mtx_unlock(&dead) : a0_mtx_unlock(mt(k))) == 0, "a held lock is released");
      vh_assert(!mine(k), "a released lock is not held");
      others(k, 0);
    } else {
      vh_assume((mt(k)->ftx & FUTEX_TID_MASK) == 0);
      vh_assert((k == MTXS ? a0_deadman_mtx_trylock(&dead) : a0_mtx_trylock(mt(k))) == 0, "a free lock is taken");
      vh_assert(mine(k), "a taken lock is held");
    }
    check(1);
  }
  last_k = LAST >= D_TRY ? MTXS : vh_concrete(vh_range(0, used < MTXS ? used : MTXS - 1));
  // What others did to it meanwhile.
  if (mine(last_k)) {
    gain(last_k);
  } else if (mt(last_k)->ftx == 0) {
    static const uint32_t words[] = {0, OTHER, OTHER | FUTEX_WAITERS, FUTEX_OWNER_DIED, FUTEX_OWNER_DIED | FUTEX_WAITERS, FUTEX_WAITERS};
    int w = vh_concrete(vh_range(0, LAST >= D_TRY ? 5 : 4));
    others(last_k, words[w]);
  }
  vh_shared(m, sizeof(m));
  vh_shared(&stkn, sizeof(stkn));
  int died = vh_crash_run(last, 0);
  check(!died);
  if (died) {
    vh_reach("died inside");
  } else {
    vh_reach("completed");
  }
  return 0;
}
