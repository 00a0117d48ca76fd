// Deadlines of condition waits (COND=1) and of lock (COND=0), with the kernel
// answering in every way it can.
#include <a0/err.h>
#include <a0/mtx.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <time.h>

#include "sysmacro.h"
#include "vh.h"

#define BILLION 1000000000
#define ME 77

static a0_mtx_t m;
static a0_cnd_t c;
static struct timespec dl, now[3];  // deadline; boot, monotonic, real
static int waits, locks, result, death, valid, outcome;

static int code(a0_err_t err) { return err == A0_ERR_SYS ? a0_err_syscode : err ? 10000 + err : 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) { return 0; }
int pthread_atfork(void (*a)(void), void (*b)(void), void (*cc)(void)) { return 0; }
int clock_gettime(clockid_t clk, struct timespec* ts) {
  *ts = now[clk == CLOCK_BOOTTIME ? 0 : clk == CLOCK_MONOTONIC ? 1 : 2];
  return 0;
}
static int fails(int e) {
  errno = e;
  return -1;
}
// ts says the same instant on clock k as dl does on the boot clock.
static void check_instant(const struct timespec* ts, int k) {
  vh_assert(ts != NULL, "a deadline reaches the kernel");
  vh_assert(ts->tv_sec >= 0 && ts->tv_nsec >= 0 && ts->tv_nsec < BILLION, "the kernel gets a usable deadline");
  // The distance in seconds and nanoseconds; clocks are small, so only the deadline can be far.
  int64_t nsec = now[k].tv_nsec + (dl.tv_nsec - now[0].tv_nsec), carry = 0;
  if (nsec < 0) nsec += BILLION, carry = -1;
  if (nsec >= BILLION) nsec -= BILLION, carry = 1;
  int64_t off = now[k].tv_sec - now[0].tv_sec + carry;  // within 2^35
  if (dl.tv_sec > INT64_MAX - off && off > 0) {
    vh_assert(ts->tv_sec > INT64_MAX / 2, "a deadline beyond all time stays far away");
    return;
  }
  int64_t sec = dl.tv_sec + off;
  if (sec < 0) {
    // before the clock began: any passed instant will do
    vh_assert(ts->tv_sec <= now[k].tv_sec, "a passed deadline stays passed");
    vh_reach("before the clock began");
    return;
  }
  vh_assert(ts->tv_sec == sec && ts->tv_nsec == nsec, "the kernel gets the same instant");
  vh_reach("converted");
}
long vh_syscall(long nr, long a, long b, long cc, long d, long e, long f) {
  if (nr == SYS_gettid) return ME;
  if (nr != SYS_futex) return 0;
  switch (b & ~FUTEX_PRIVATE_FLAG) {
    case FUTEX_WAIT_REQUEUE_PI:
      waits++;
      if (valid) check_instant((const struct timespec*)d, 1);
      switch (result) {
        case 0:  // woken, owning the lock
          m.ftx = ME | FUTEX_WAITERS | (death ? FUTEX_OWNER_DIED : 0);
          return 0;
        case 1:  // woken or interrupted before waiting; the lock is free
          m.ftx = death ? FUTEX_OWNER_DIED : 0;
          return fails(EAGAIN);
        case 2:  // the same, the lock is taken
          m.ftx = 55;
          return fails(EAGAIN);
        case 3:
          m.ftx = death ? FUTEX_OWNER_DIED : 0;
          return fails(ETIMEDOUT);
        default:
          m.ftx = 55;
          return fails(ETIMEDOUT);
      }
    case FUTEX_LOCK_PI:
      locks++;
#if !COND
      check_instant((const struct timespec*)d, 2);
      if (result == 1) return fails(ETIMEDOUT);
#endif
      m.ftx = ME | (death ? FUTEX_OWNER_DIED : 0);
      return 0;
    case FUTEX_UNLOCK_PI:
      m.ftx = 0;
      return 0;
  }
  vh_assert(0, "no other request to the kernel");
  return 0;
}

int main(void) {
  for (int k = 0; k < 3; k++) {
    now[k].tv_sec = vh_symr(64, 0, 1ull << 34);
    now[k].tv_nsec = vh_symr(64, 0, BILLION - 1);
  }
  a0_time_mono_t t;
#if VALID
  t.ts.tv_sec = vh_symr(64, 0, INT64_MAX);
  t.ts.tv_nsec = vh_symr(64, 0, BILLION - 1);
#else
  t.ts.tv_sec = vh_u64();
  t.ts.tv_nsec = vh_u64();
#endif
  dl = t.ts;
  result = vh_concrete(vh_range(0, 4));
  death = vh_concrete(vh_range(0, 1));
  valid = dl.tv_sec >= 0 && dl.tv_nsec >= 0 && dl.tv_nsec < BILLION && (dl.tv_sec || dl.tv_nsec);
#if VALID
  vh_assume(valid);
#else
  vh_assume(!valid);
#endif
#if COND
  vh_assume(code(a0_mtx_lock(&m)) == 0);
  int e = code(a0_cnd_timedwait(&c, &m, &t));
#if VALID
  int want = result == 0 || result == 1 || result == 2 ? (death ? EOWNERDEAD : 0) : ETIMEDOUT;
  vh_assert(waits == 1, "the wait happens");
  vh_assert(e == want, "the wait reports what happened");
#else
  vh_assert(e == EINVAL && !waits, "an invalid deadline is refused");
  vh_reach("refused");
#endif
  vh_assert((m.ftx & FUTEX_TID_MASK) == ME, "the lock is held after the wait");
  vh_assert(code(a0_mtx_unlock(&m)) == 0, "and can be unlocked");
#else
  m.ftx = 55;
  int e = code(a0_mtx_timedlock(&m, &t));
  vh_assert(locks == 1, "a taken lock is left to the kernel");
  vh_assert(e == (result == 1 ? ETIMEDOUT : death ? EOWNERDEAD : 0), "the lock reports what happened");
#endif
  return 0;
}
