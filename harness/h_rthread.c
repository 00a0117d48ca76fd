// Threaded readers: the reader thread, a closing thread and writers run under
// every schedule that switches where a thread takes the lock, waits, or is in
// its callback.
#define NO_MTX_STUB
#include "h_transport.h"

#include <a0/reader.h>

#ifndef STEPS
#define STEPS 5
#endif
#ifndef INIT
#define INIT 0
#endif

#include "h_threads.h"

// ---- what has to be delivered (numbers relative to the starting ring)
static uint64_t base, last, start;
static int first_done, had_start, newest, closed, closing;

static int expected(int* alt) {
  *alt = -1;
  if (!nlive) return -1;
  uint64_t high = low + nlive - 1, min = low;
  if (first_done) {
    min = last + 1;
  } else if (INIT == A0_INIT_AWAIT_NEW) {
    if (had_start && start < low && newest) *alt = 0;
    if (!had_start && newest) *alt = 0;
    min = had_start ? start + 1 : low;
  } else {
    if (had_start && start >= low) return (int)(start - low);
    if (newest) {
      *alt = 0;
      return nlive - 1;
    }
    return 0;
  }
  if (min > high) return -1;
  if (newest) return nlive - 1;
  return min <= low ? 0 : (int)(min - low);
}

static void delivered(uint64_t off, uint64_t size) {
  int alt, e = expected(&alt);
  vh_assert(!closed, "no callback after closing has returned");
  vh_assert(e >= 0, "a callback is made only for a message that is due");
  if (e < 0) vh_assume(0);
  if (alt >= 0 && off == at[alt] + FH) e = alt;
  vh_assert((off == at[e] + FH) & (size == len[e]), "callbacks are made for the messages in order, none skipped");
  first_done = 1;
  last = low + e;
  vh_reach("delivered");
}

static a0_reader_zc_t rd;
#ifdef SELF_CLOSE
static int tried;
static void self_close(void) {
  if (!tried) {
    tried = 1;
    a0_err_t err = a0_reader_zc_close(&rd);
    vh_assert(err != A0_OK, "closing from inside the callback is refused");
    vh_reach("self close");
  }
}
#endif

static void onpacket(void* u, a0_transport_locked_t tlk, a0_flat_packet_t fpkt) {
  vh_assert((cur == 1) & (owner == 1), "the callback runs on the reader's thread with the transport locked");
  delivered((uint64_t)(fpkt.buf.data - arena), fpkt.buf.size);
#ifdef SELF_CLOSE
  self_close();
#endif
  vh_assert(owner == 1, "the transport stays locked during the callback");
}

static void closer(void* u) {
  vh_assert(!a0_reader_zc_close(&rd), "closing succeeds");
  closed = 1;
  vh_assert(vh_done(1), "the reader's thread has ended once closing returns");
  vh_assert(owner < 0, "closing releases the lock");
  vh_reach("closed");
}

static void do_write(void) {
  // Takes one place or all of them.
  uint64_t size = vh_concrete(vh_bool()) ? GRID * 64 - FH : 24;
  a0_transport_lock(&tp, &lk);
  a0_transport_frame_t* f = NULL;
  vh_assert(!a0_transport_alloc(lk, size, &f), "the write succeeds");
  uint64_t v;
  a0_transport_seq_low(lk, &v);
  drop((int)vh_concrete(v - base - low));
  at[nlive] = (uint64_t)((uint8_t*)f - arena);
  len[nlive] = size;
  nlive++;
  a0_transport_commit(lk);
  a0_transport_unlock(lk);
}
static void do_clear(void) {
  a0_transport_lock(&tp, &lk);
  a0_transport_clear(lk);
  a0_transport_unlock(lk);
  drop(nlive);
}

int main() {
  build(N, UP);
  open_tp();
  newest = (int)vh_concrete(vh_bool());
  a0_reader_options_t opts = {INIT, newest ? A0_ITER_NEWEST : A0_ITER_NEXT};
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  a0_zero_copy_callback_t cb = {NULL, onpacket};
  had_start = nlive > 0;
  base = low - 1;
  low = 1;
  start = INIT == A0_INIT_OLDEST ? low : low + nlive - 1;
  vh_assert(!a0_reader_zc_init(&rd, a, opts, cb), "opening a reader succeeds");
  for (int i = 0; i < STEPS; i++) {
    switch (vh_concrete(vh_range(0, 4))) {
      case 0:
        if (owner >= 0) vh_assume(0);
        do_write();
        break;
      case 1:
        if (owner >= 0) vh_assume(0);
        do_clear();
        break;
      case 2:
        if (!enabled(1)) vh_assume(0);
        run(1);
        break;
      case 3:
#ifdef SELF_CLOSE
        vh_assume(0);
#endif
        if (!started[2]) {
          vh_spawn(closer, NULL);
          started[2] = 1;
        }
        if (!enabled(2)) vh_assume(0);
        run(2);
        break;
      default:
        // A wait may end without reason.
        if (want[1] != SLEEP || spurious) vh_assume(0);
        spurious = 1;
        want[1] = LOCK;
    }
  }
  // Let the threads run as far as they get.
  for (int i = 0; i < 40 && (enabled(1) || enabled(2)); i++) {
    run(enabled(1) ? 1 : 2);
  }
  vh_assert(!enabled(1) && !enabled(2), "the threads come to rest");
  if (started[2]) {
    vh_assert(closed, "closing returns");
    vh_assert(vh_done(1), "closing ends the reader's thread");
  } else {
    int alt;
    vh_assert(expected(&alt) < 0, "every message that is due is delivered");
    vh_assert(!vh_done(1), "the reader keeps running until it is closed");
    vh_reach("at rest");
  }
  vh_assert(!bad_lock & (owner < 0), "the lock is used properly and released");
  return 0;
}
