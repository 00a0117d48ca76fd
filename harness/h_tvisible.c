// Uncommitted messages on an arbitrary transport state (h_transport.h).
#define OWN_CND
#include "h_transport.h"

static a0_arena_mode_t any_mode(int readonly) {
  static const a0_arena_mode_t modes[] = {A0_ARENA_MODE_SHARED, A0_ARENA_MODE_EXCLUSIVE, A0_ARENA_MODE_READONLY};
  return modes[vh_concrete(vh_range(0, readonly ? 2 : 1))];
}

// What another process does while this one waits: take the lock, allocate and
// die before committing.
static int waits;
static uint64_t wsize;
static void other_process_dies(void) {
  if (waits++) {
    return;
  }
  a0_transport_t to;
  a0_transport_locked_t lo;
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  lk_held = 0;
  a0_transport_init(&to, a);
  a0_transport_lock(&to, &lo);
  a0_transport_frame_t* f = NULL;
  a0_transport_alloc(lo, wsize, &f);
  // Messages it discarded to make room are gone.
  uint64_t v;
  bool e;
  a0_transport_empty(lo, &e);
  a0_transport_seq_low(lo, &v);
  if (e) {
    a0_transport_seq_high(lo, &v);
    v++;
  }
  drop((int)vh_concrete(v - low));
  lk_held = 1;
}
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
  other_process_dies();
  return sys_err(EOWNERDEAD);
}
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) {
  other_process_dies();
  tp._wait_cnt = 0;
  return sys_err(EOWNERDEAD);
}

static int evals;
static a0_err_t pred(void* arg, bool* out) {
  uint64_t hi;
  a0_transport_seq_high(lk, &hi);
  vh_assert(hi == low + nlive - 1, "a wait condition sees only committed messages");
  *out = evals++ > 0;
  return A0_OK;
}

int main() {
  build(N, UP);
#ifdef LEFT_BEHIND
  // The other bookkeeping copy is arbitrary, as after a death mid-operation.
  a0_arena_mode_t mode = any_mode(1);
  open_mode(mode, asize);
  vh_readonly(arena, mode == A0_ARENA_MODE_READONLY);
  a0_transport_lock(&tp, &lk);
  expect_live_(asize);
  a0_transport_unlock(lk);
  vh_reach("left behind");
#endif
#ifdef UNLOCK
  open_mode(any_mode(0), asize);
  uint64_t size = vh_sym(41);
  a0_transport_lock(&tp, &lk);
  a0_transport_frame_t* f = NULL;
  a0_err_t err = a0_transport_alloc(lk, size, &f);
  uint64_t v;
  bool e;
  a0_transport_empty(lk, &e);
  a0_transport_seq_low(lk, &v);
  if (e) {
    a0_transport_seq_high(lk, &v);
    v++;
  }
  drop((int)vh_concrete(v - low));
  a0_transport_unlock(lk);
#ifdef REOPEN
  a0_arena_mode_t mode = any_mode(1);
  open_mode(mode, asize);
  vh_readonly(arena, mode == A0_ARENA_MODE_READONLY);
#endif
  a0_transport_lock(&tp, &lk);
  expect_live_(asize);
  a0_transport_unlock(lk);
  if (!err) vh_reach("abandoned");
#endif
#ifdef TWICE
  // Two allocations under one lock, abandoned or committed together.
  open_mode(A0_ARENA_MODE_SHARED, asize);
  uint64_t size = vh_sym(41), size2 = vh_sym(41);
  int commit = (int)vh_concrete(vh_bool());
  a0_transport_lock(&tp, &lk);
  a0_transport_frame_t *f = NULL, *g = NULL;
  a0_err_t err = a0_transport_alloc(lk, size, &f);
  vh_assume(!err);
  uint64_t off1 = (uint64_t)((uint8_t*)f - arena);
  bool evicts = false;
  a0_transport_alloc_evicts(lk, size2, &evicts);
  a0_err_t err2 = a0_transport_alloc(lk, size2, &g);
  vh_assume(!err2);
  uint64_t off2 = (uint64_t)((uint8_t*)g - arena);
  if (commit) {
    a0_transport_commit(lk);
  }
  a0_transport_unlock(lk);
  a0_transport_lock(&tp, &lk);
  bool e;
  uint64_t v, hi;
  a0_transport_empty(lk, &e);
  a0_transport_seq_low(lk, &v);
  a0_transport_seq_high(lk, &hi);
  if (e) {
    v = hi + 1;
  }
#ifdef TWICE_EVICTING
  vh_assume(!commit & evicts);
  vh_reach("evicted between the allocations");
  vh_assert(hi == low + nlive - 1, "an allocation followed by an evicting one is not visible when both are abandoned");
  return 0;
#else
  // The other case is a known finding with a check of its own.
  vh_assume(commit | !evicts);
  vh_assert(hi == low + nlive - 1 + (commit ? 2 : 0), "the newest number is that of the last commit");
#endif
  if (commit) {
    at[nlive] = off1;
    len[nlive] = size;
    at[nlive + 1] = off2;
    len[nlive + 1] = size2;
    nlive += 2;
  }
  uint64_t k = vh_concrete(v - low);
  vh_assert(k <= (uint64_t)nlive, "only live messages are discarded");
  drop((int)k);
  expect_live_(asize);
  a0_transport_unlock(lk);
  if (commit) vh_reach("two committed");
  if (!commit) vh_reach("two abandoned");
#endif
#ifdef THEN_CLEAR
  open_mode(A0_ARENA_MODE_SHARED, asize);
  uint64_t size = vh_sym(41);
  a0_transport_lock(&tp, &lk);
  a0_transport_frame_t* f = NULL;
  a0_transport_alloc(lk, size, &f);
  a0_transport_clear(lk);
  a0_transport_unlock(lk);
  a0_transport_lock(&tp, &lk);
  drop(nlive);
  expect_live_(asize);
  a0_transport_unlock(lk);
  vh_reach("cleared");
#endif
#ifdef WAIT
  open_mode(A0_ARENA_MODE_SHARED, asize);
  wsize = vh_sym(41);
  a0_transport_lock(&tp, &lk);
  a0_predicate_t p = {NULL, pred};
  vh_assert(!a0_transport_wait(lk, p), "the wait ends when its condition holds");
  expect_live_(asize);
  a0_transport_unlock(lk);
  vh_reach("waited");
#endif
#ifdef SHUTDOWN
  open_mode(A0_ARENA_MODE_SHARED, asize);
  wsize = vh_sym(41);
  a0_transport_lock(&tp, &lk);
  tp._wait_cnt = 1;  // another thread of this process is waiting
  a0_transport_shutdown(lk);
  expect_live_(asize);
  a0_transport_unlock(lk);
  vh_reach("shut down");
#endif
  return 0;
}
