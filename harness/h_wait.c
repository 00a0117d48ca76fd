// Blocking waits: any deadline, any clock, any wakeups, a shutdown at any point.
#define NO_MTX_STUB
#define OWN_CLOCK
#include "h_transport.h"

#include "h_threads.h"

#include <a0/reader.h>

#ifndef STEPS
#define STEPS 4
#endif

// ---- clock and timed sleeping
static struct timespec now;
static void tick(void) {
  struct timespec t = {(long)vh_sym(34), (long)vh_symr(30, 0, 999999999)};
  vh_assume((t.tv_sec > now.tv_sec) | ((t.tv_sec == now.tv_sec) & (t.tv_nsec >= now.tv_nsec)));
  now = t;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  tick();
  *ts = now;
  return 0;
}
static int passed(const struct timespec* t) {
  return (now.tv_sec > t->tv_sec) | ((now.tv_sec == t->tv_sec) & (now.tv_nsec >= t->tv_nsec));
}
static a0_time_mono_t deadline;
static int timed, unusable, wake_with, rejected, shutdown_asked, waited;
static int condition(void);

a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
  bad_lock |= owner != cur;
  if (t && unusable) {
    vh_assert(++rejected < 4, "a wait with an unusable deadline returns instead of spinning with the lock held");
    if (rejected >= 4) vh_assume(0);
    return sys_err(EINVAL);
  }
  if (cur == 1) {
    vh_assert(!condition(), "a wait does not sleep once its condition holds");
    vh_assert(!shutdown_asked, "a wait does not sleep once shutdown was requested");
    waited++;
  }
  owner = -1;
  wake_with = 0;
  give_way(SLEEP);
  bad_lock |= owner >= 0;
  owner = cur;
  return cur == 1 && wake_with ? sys_err(wake_with) : A0_OK;
}
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return a0_cnd_timedwait(c, m, NULL); }

// ---- the waiting thread
static a0_transport_t wt;
static a0_reader_sync_zc_t rd;
static int mode, has_cursor, done_wait, calls;
static uint64_t cursor, base;
static a0_err_t result;
static int result_code;

static int condition(void) {
  if (mode == 0) return nlive > 0;
  if (mode == 1) return nlive == 0;
  // A message after the cursor.
  return nlive && (!has_cursor || low + nlive - 1 > cursor);
}
static void onread(void* u, a0_transport_locked_t tlk, a0_flat_packet_t fpkt) {
  vh_assert(owner == 1, "the lock is held in the callback");
  calls++;
}
static void waiter(void* u) {
  a0_time_mono_t* t = timed ? &deadline : NULL;
  a0_transport_locked_t wl;
  if (mode == 3) {
    a0_zero_copy_callback_t cb = {NULL, onread};
    result = timed ? a0_reader_sync_zc_read_blocking_timeout(&rd, &deadline, cb) : a0_reader_sync_zc_read_blocking(&rd, cb);
    result_code = a0_err_syscode;
    vh_assert(owner != 1, "a blocking read releases the lock");
    vh_assert((result == A0_OK) == (calls == 1), "a blocking read calls back exactly when it succeeds");
  } else {
    a0_transport_lock(&wt, &wl);
    a0_predicate_t p = mode == 0 ? a0_transport_nonempty_pred(&wl) : mode == 1 ? a0_transport_empty_pred(&wl) : a0_transport_has_next_pred(&wl);
    if (mode == 2 && nlive) {
      a0_transport_jump_tail(wl);
      has_cursor = 1;
      cursor = low + nlive - 1;
    }
    result = timed ? a0_transport_timedwait(wl, p, &deadline) : a0_transport_wait(wl, p);
    result_code = a0_err_syscode;
    vh_assert(owner == 1, "a wait returns with the lock held");
    if (!result) vh_assert(condition(), "a wait succeeds only when its condition holds");
    a0_transport_unlock(wl);
  }
  if (!result) {
    vh_reach("satisfied");
  } else {
    vh_assert(result == A0_ERR_SYS, "a failed wait reports a system error");
    if (result_code == ETIMEDOUT) {
      vh_assert(timed && (unusable | passed(&deadline.ts)), "a wait times out only at or after its deadline");
      vh_reach("timed out");
    } else if (result_code == ESHUTDOWN) {
      vh_assert(shutdown_asked, "a wait reports shutdown only when it was requested");
      vh_reach("shut down");
    } else {
      vh_assert(timed & unusable, "a wait with a usable deadline ends for its condition, its deadline or a shutdown");
      vh_reach("unusable");
    }
  }
  done_wait = 1;
}
static void stopper(void* u) {
  a0_transport_locked_t l;
  a0_transport_t* t = mode == 3 ? &rd._transport : &wt;
  a0_transport_lock(t, &l);
  shutdown_asked = 1;
  a0_transport_shutdown(l);
  vh_assert(want[1] != SLEEP, "shutdown returns only when nobody waits any more");
  a0_transport_unlock(l);
}

static void do_write(void) {
  uint64_t size = vh_concrete(vh_bool()) ? GRID * 64 - FH : 24;
  a0_transport_lock(&tp, &lk);
  a0_transport_frame_t* f = NULL;
  a0_transport_alloc(lk, size, &f);
  uint64_t v;
  a0_transport_seq_low(lk, &v);
  drop((int)vh_concrete(v - base - low));
  at[nlive] = (uint64_t)((uint8_t*)f - arena);
  len[nlive] = size;
  nlive++;
  a0_transport_commit(lk);
  a0_transport_unlock(lk);
}
static void do_clear(void) {
  a0_transport_lock(&tp, &lk);
  a0_transport_clear(lk);
  a0_transport_unlock(lk);
  drop(nlive);
}

int main() {
  build(N, UP);
  open_tp();
  base = low - 1;
  low = 1;
  mode = MODE;
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  a0_transport_init(&wt, a);
  has_cursor = mode == 3 && nlive;
  cursor = low + nlive - 1;
  if (mode == 3) {
    a0_reader_options_t opts = {A0_INIT_AWAIT_NEW, A0_ITER_NEXT};
    a0_reader_sync_zc_init(&rd, a, opts);
  }
  timed = TIMED != 0;
  deadline.ts.tv_sec = (long)vh_u64();
  deadline.ts.tv_nsec = (long)vh_u64();
  unusable = TIMED == 2;
  int ok = (deadline.ts.tv_sec >= 0) & (deadline.ts.tv_nsec >= 0) & (deadline.ts.tv_nsec < 1000000000);
  vh_assume(unusable ? !ok : ok);
  vh_spawn(waiter, NULL);
  started[1] = 1;
  vh_spawn(stopper, NULL);
  for (int i = 0; i < STEPS; i++) {
    switch (vh_concrete(vh_range(0, 5))) {
      case 0:
        if (owner >= 0) vh_assume(0);
        do_write();
        break;
      case 1:
        if (owner >= 0) vh_assume(0);
        do_clear();
        break;
      case 2:
        if (!enabled(1)) vh_assume(0);
        run(1);
        break;
      case 3:
        started[2] = 1;
        if (!enabled(2)) vh_assume(0);
        run(2);
        break;
      case 4:
        // A wait may end without reason, or because another holder died.
        if (want[1] != SLEEP) vh_assume(0);
        want[1] = LOCK;
        wake_with = vh_concrete(vh_bool()) ? EOWNERDEAD : 0;
        break;
      default:
        // The deadline passes.
        if (want[1] != SLEEP || !timed) vh_assume(0);
        tick();
        vh_assume(passed(&deadline.ts));
        want[1] = LOCK;
        wake_with = ETIMEDOUT;
    }
  }
  for (int i = 0; i < 40 && (enabled(1) || enabled(2)); i++) {
    run(enabled(1) ? 1 : 2);
  }
  vh_assert(!enabled(1) && !enabled(2), "the threads come to rest");
  if (!done_wait) {
    vh_assert((want[1] == SLEEP) & !condition() & !shutdown_asked, "a wait goes on only while its condition is false and no shutdown was requested");
    vh_reach("still waiting");
  }
  if (started[2]) {
    vh_assert(vh_done(2), "shutdown returns");
  }
  vh_assert(!bad_lock & (owner < 0), "the lock is used properly and released");
  return 0;
}
