// One arbitrary operation on an arbitrary transport state.
#include "h_transport.h"

#ifndef N
#define N 2
#define UP 2
#endif

static void check(void) {
  vh_assert(!lk_bad, "the lock is taken and released in turn");
#ifndef NO_LIVE
  expect_live_(asize);
#endif
#ifdef SPACE
  expect_space();
#endif
}

static uint64_t number_low(void) {
  uint64_t v;
  bool e;
  a0_transport_empty(lk, &e);
  if (e) {
    a0_transport_seq_high(lk, &v);
    return v + 1;
  }
  a0_transport_seq_low(lk, &v);
  return v;
}

#ifdef CURSOR
// A second connection whose cursor was on message `cur` before the operation.
static a0_transport_t tq;
static int cur;
static uint64_t low0, at0[MAXF];

static void cursor_set(void) {
  for (int i = 0; i < MAXF; i++) {
    at0[i] = at[i];
  }
  low0 = low;
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  a0_transport_init(&tq, a);
  a0_transport_lock(&tq, &lk);
  cur = (int)vh_concrete(vh_range(0, N));
  if (cur < N) {
    a0_transport_jump_head(lk);
    for (int i = 0; i < cur; i++) {
      a0_transport_step_next(lk);
    }
  }
  a0_transport_unlock(lk);
}
static void cursor_check(void) {
  a0_transport_lock(&tq, &lk);
  bool b;
  a0_transport_frame_t* f = NULL;
  uint64_t seq = low0 + cur;
  a0_transport_iter_valid(lk, &b);
  if (cur < N && seq >= low) {
    vh_assert(b, "a cursor stays valid while its message is live");
    vh_assert(!a0_transport_frame(lk, &f), "a cursor's live message can be read");
    vh_assert((uint64_t)((uint8_t*)f - arena) == at0[cur], "a cursor stays on its message");
    a0_transport_has_next(lk, &b);
    int i = (int)vh_concrete(seq - low);
    bool hp;
    a0_transport_has_prev(lk, &hp);
    vh_assert(hp == (i > 0), "a cursor has a previous message exactly if its message is not the oldest");
    vh_assert(b == (i < nlive - 1), "a cursor has a next message exactly if its message is not the newest");
    if (i < nlive - 1) {
      vh_assert(!a0_transport_step_next(lk) & !a0_transport_frame(lk, &f), "a cursor steps to the next message");
      vh_assert((uint64_t)((uint8_t*)f - arena) == at[i + 1], "a cursor's next message is the one numbered next");
    } else {
      vh_assert(a0_transport_step_next(lk) == A0_ERR_RANGE, "a cursor on the newest message cannot step forward");
    }
    vh_assert(!a0_transport_jump(lk, at[i]), "a live message can be jumped to");
    if (!i) {
      vh_assert(a0_transport_step_prev(lk) == A0_ERR_RANGE, "a cursor on the oldest message cannot step back");
    }
    if (i > 0) {
      vh_assert(!a0_transport_jump(lk, at[i]) & !a0_transport_step_prev(lk) & !a0_transport_frame(lk, &f), "a cursor steps to the previous message");
      vh_assert((uint64_t)((uint8_t*)f - arena) == at[i - 1], "a cursor's previous message is the one numbered before");
    }
    vh_reach("valid cursor");
  } else {
    vh_assert(!b, "a cursor whose message was discarded, or that was never placed, is invalid");
    if (cur < N) {
      vh_assert(a0_transport_frame(lk, &f) != A0_OK, "a discarded message cannot be read");
    }
    a0_transport_has_prev(lk, &b);
    vh_assert(!b, "an invalid cursor has no previous message");
    vh_assert(a0_transport_step_prev(lk) != A0_OK, "an invalid cursor cannot step back");
    a0_transport_has_next(lk, &b);
    vh_assert(b == (nlive > 0), "an invalid cursor has a next message exactly if any is live");
    if (nlive) {
      vh_assert(!a0_transport_step_next(lk) & !a0_transport_frame(lk, &f), "an invalid cursor steps forward");
      vh_assert((uint64_t)((uint8_t*)f - arena) == at[0], "an invalid cursor steps forward to the oldest live message");
    } else {
      vh_assert(a0_transport_step_next(lk) == A0_ERR_RANGE, "nothing to step to in an empty transport");
    }
    vh_reach("invalid cursor");
  }
  a0_transport_unlock(lk);
}
#endif

int main() {
  build(N, UP);
  open_tp();
#ifdef CURSOR
  cursor_set();
#endif
  a0_transport_lock(&tp, &lk);
#ifdef OP_WRITE
  {
    uint64_t size = vh_u64();
    bool ev = 0;
    a0_err_t eerr = a0_transport_alloc_evicts(lk, size, &ev);
    a0_transport_frame_t* f = NULL;
    a0_err_t err = a0_transport_alloc(lk, size, &f);
    int fits = size <= ARENA_MAX && HDR + FH + size <= asize;
    vh_assert((err == A0_OK) == fits, "a write is accepted exactly when it fits an empty arena");
    vh_assert(err == (fits ? A0_OK : A0_ERR_FRAME_LARGE), "a write that does not fit reports the frame as too large");
    vh_assert(eerr == err, "the eviction query reports the same error as the write");
    if (err) {
      a0_transport_unlock(lk);
      a0_transport_lock(&tp, &lk);
      check();
      vh_reach("refused");
      return 0;
    }
    uint64_t off = (uint64_t)((uint8_t*)f - arena);
    uint64_t gone = number_low() - low;
    vh_assert(gone <= (uint64_t)nlive, "only live messages are discarded");
    int k = (int)vh_concrete(gone);
    vh_assert(ev == (k > 0), "the eviction query is true exactly when the write discards a message");
    // Room right after the newest message.
    if (nlive) {
      uint64_t here = align16(at[nlive - 1] + FH + len[nlive - 1]);
      uint64_t room = at[nlive - 1] < at[0] ? at[0] : asize;
      int can = (here + FH + size <= room);
      vh_assert(!can | (k == 0), "a write discards nothing while there is room after the newest message");
    } else {
      vh_assert(k == 0, "a write to an empty transport discards nothing");
    }
    drop(k);
    at[nlive] = off;
    len[nlive] = size;
    probe[nlive] = size;
    nlive++;
    vh_assert(f->hdr.data_size == size, "the allocated message has the requested size");
#ifdef PROBE
    if (size) {
      probe[nlive - 1] = vh_sym(40);
      vh_assume(probe[nlive - 1] < size);
      byte[nlive - 1] = vh_u8();
      f->data[probe[nlive - 1]] = byte[nlive - 1];
    }
#endif
#ifdef ABANDON
    nlive--;
#else
    int b0 = lk_broadcasts;
    vh_assert(!a0_transport_commit(lk), "commit succeeds");
    vh_assert(lk_broadcasts > b0, "a commit notifies the waiting processes");
#endif
    vh_reach("written");
    if (k == 0) vh_reach("no eviction");
    if (k == N) vh_reach("all evicted");
    if (off == HDR) vh_reach("at the start");
  }
#endif
#ifdef OP_CLEAR
  vh_assert(!a0_transport_clear(lk), "clear succeeds");
  drop(nlive);
  vh_reach("cleared");
#endif
#ifdef OP_RESIZE
  {
    uint64_t used;
    a0_transport_used_space(lk, &used);
    uint64_t to = vh_u64();
#ifndef REFUSE
    vh_assume(to <= asize);
#endif
    a0_err_t err = a0_transport_resize(lk, to);
    vh_assert((err == A0_OK) == (to >= used), "a resize is refused exactly when it is below the used space");
    if (err) {
      vh_assert(err == A0_ERR_INVALID_ARG, "a refused resize reports an invalid argument");
      check();
      vh_reach("refused");
    } else {
      vh_assume(to <= asize);
      asize = to;
      check();
      vh_reach("resized");
      // Everything that follows stays within the new size.
      uint64_t size = vh_u64();
      a0_transport_frame_t* f = NULL;
      err = a0_transport_alloc(lk, size, &f);
      vh_assert((err == A0_OK) == (size <= ARENA_MAX && HDR + FH + size <= asize), "after a resize a write is accepted exactly when it fits the new size");
      if (!err) {
        uint64_t k = vh_concrete(number_low() - low);
        drop(k);
        at[nlive] = (uint64_t)((uint8_t*)f - arena);
        len[nlive] = size;
        probe[nlive] = size;
        nlive++;
        a0_transport_commit(lk);
        check();
        vh_reach("written after resize");
      }
    }
  }
#endif
  a0_transport_unlock(lk);
  a0_transport_lock(&tp, &lk);
  check();
  a0_transport_unlock(lk);
#ifdef CURSOR
  cursor_check();
#endif
  vh_assert(!lk_held & !lk_bad, "the lock is released");
  return 0;
}
