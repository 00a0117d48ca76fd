// Death of a process at any point inside an operation on an arbitrary
// transport state (h_transport.h), followed by another process opening it.
#include "h_transport.h"

static int stage;
static uint64_t size, newoff, newprobe, newsize;
static uint8_t newbyte;

static void op(void* arg) {
  a0_transport_lock(&tp, &lk);
#ifdef OP_WRITE
  a0_transport_frame_t* f = NULL;
  if (!a0_transport_alloc(lk, size, &f)) {
    newoff = (uint64_t)((uint8_t*)f - arena);
#ifdef PROBE
    if (newprobe < size) {
      f->data[newprobe] = newbyte;
    }
#endif
    stage = 1;
    a0_transport_commit(lk);
    stage = 2;
  }
#endif
#ifdef OP_CLEAR
  stage = 1;
  a0_transport_clear(lk);
  stage = 2;
#endif
#ifdef OP_RESIZE
  stage = 1;
  stage = a0_transport_resize(lk, newsize) ? 3 : 2;
#endif
  a0_transport_unlock(lk);
}

int main() {
  build(N, UP);
  open_tp();
#ifdef OP_WRITE
  size = vh_sym(41);
  newprobe = vh_sym(40);
  newbyte = vh_u8();
#endif
#ifdef OP_RESIZE
  newsize = vh_sym(41);
  vh_assume(newsize <= asize);
#endif
  vh_shared(arena, asize);
  int died = vh_crash_run(op, NULL);
  lk_held = 0;  // released by the system

  a0_transport_t tq;
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  vh_assert(!a0_transport_init(&tq, a), "the next process can open the transport");
  vh_assert(!a0_transport_lock(&tq, &lk), "the next process can lock the transport");

  uint64_t hi = 0, lo = 0;
  bool e = 0;
  a0_transport_empty(lk, &e);
  a0_transport_seq_high(lk, &hi);
  a0_transport_seq_low(lk, &lo);
  if (e) {
    lo = hi + 1;
  }
#ifdef OP_WRITE
  uint64_t high = low + nlive - 1;
  int visible = (int)vh_concrete(hi - high);
  vh_assert((visible == 0) | (visible == 1), "at most the one new message is added");
  vh_assert(!visible | (stage >= 1), "a message whose commit was not reached is not visible");
  vh_assert(visible | (stage < 2), "a message whose commit returned is visible");
  uint64_t gone = vh_concrete(lo - low);
  vh_assert(gone <= (uint64_t)nlive, "only live messages are discarded");
  drop((int)gone);
  if (visible) {
    at[nlive] = newoff;
    len[nlive] = size;
    probe[nlive] = newprobe < size ? newprobe : size;
    byte[nlive] = newbyte;
    nlive++;
  }
  if (died && visible) vh_reach("died after the commit took effect");
  if (died && !visible) vh_reach("died before the commit took effect");
  if (died && !visible && gone) vh_reach("died between making room and committing");
  if (!died && visible) vh_reach("completed");
#endif
#ifdef OP_CLEAR
  vh_assert(hi == low + nlive - 1, "clearing does not change the newest number");
  int cleared = e;
  if (cleared && nlive) {
    vh_assert(stage >= 1, "nothing is discarded before the clear");
    drop(nlive);
  }
  vh_assert((stage < 2) | (nlive == 0), "a completed clear leaves no message");
  if (died) vh_reach("died");
#endif
#ifdef OP_RESIZE
  // Either size may be in force.
  uint64_t used = 0;
  a0_transport_used_space(lk, &used);
  uint64_t s2 = vh_sym(41);
  a0_transport_frame_t* f = NULL;
  expect_live_(asize);
  vh_assert(used <= asize, "the used space stays inside the arena");
  a0_err_t err = a0_transport_alloc(lk, s2, &f);
  int fits0 = HDR + FH + s2 <= asize, fits1 = HDR + FH + s2 <= newsize;
  vh_assert(fits0 | (err != A0_OK), "a write larger than the arena is refused");
  vh_assert(!(fits0 & fits1) | (err == A0_OK), "a write that fits either size is accepted");
  vh_assert((stage != 2) | (fits1 == (err == A0_OK)), "after a completed resize the new size is in force");
  vh_assert(((stage != 0) & (stage != 3)) | (fits0 == (err == A0_OK)), "before a resize the old size is in force");
  if (died) vh_reach("died");
  return 0;
#else
  expect_live_(asize);
  expect_space();
  uint64_t s2 = vh_sym(41);
  a0_transport_frame_t* f = NULL;
  a0_err_t err = a0_transport_alloc(lk, s2, &f);
  vh_assert((err == A0_OK) == (HDR + FH + s2 <= asize), "the transport accepts further writes");
  return 0;
#endif
}
