// Sync readers: arbitrary starting ring, then a bounded history of writes,
// clears, abandoned writes and reads.
#define OWN_CND
#include "h_transport.h"

#include <a0/reader.h>

#ifndef INIT
#define INIT (a0_reader_init_t) vh_concrete(vh_range(0, 2))
#endif
#ifndef STEPS
#define STEPS 3
#endif

a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) {
  vh_assert(0, "a read blocks only while nothing is available");
  vh_assume(0);
  return A0_OK;
}
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
  return a0_cnd_wait(c, m);
}
uint32_t a0_tid(void) { return 1; }

int clock_gettime(clockid_t c, struct timespec* ts) {
  ts->tv_sec = 100;
  ts->tv_nsec = 0;
  return 0;
}

static int calls;
static uint64_t got_off, got_len;
static void onread(void* u, a0_transport_locked_t tlk, a0_flat_packet_t fpkt) {
  calls++;
  vh_assert(lk_held, "the callback runs with the transport locked");
  got_off = (uint64_t)(fpkt.buf.data - arena);
  got_len = fpkt.buf.size;
}

static a0_reader_sync_zc_t rd;
static int init, newest, how;
// Numbers are kept relative to the first one in the starting ring.
static uint64_t base;
// What the reader returned so far.
static int first_done;
static uint64_t last;
static int had_start;
static uint64_t start;

static void do_write(int commit) {
  a0_transport_lock(&tp, &lk);
#ifdef GRID
  // Takes one place, two places or all of them.
  static const uint64_t sizes[] = {24, 88, GRID * 64 - FH};
  uint64_t size = sizes[vh_concrete(vh_range(0, 2))];
#else
  uint64_t size = vh_sym(40);
#endif
  a0_transport_frame_t* f = NULL;
  if (a0_transport_alloc(lk, size, &f)) {
    a0_transport_unlock(lk);
    vh_assume(0);
  }
  uint64_t v;
  a0_transport_seq_low(lk, &v);
  drop((int)vh_concrete(v - base - low));
  if (commit) {
    at[nlive] = (uint64_t)((uint8_t*)f - arena);
    len[nlive] = size;
    nlive++;
    a0_transport_commit(lk);
  }
  a0_transport_unlock(lk);
}

static void do_clear(void) {
  a0_transport_lock(&tp, &lk);
  a0_transport_clear(lk);
  a0_transport_unlock(lk);
  drop(nlive);
}

// The message a read has to return now: index of the live message, -1 for
// none. A reader that steps to the newest message and whose first message was
// discarded may go on with the oldest or the newest one (*alt).
static int expected(int* alt) {
  *alt = -1;
  if (!nlive) {
    return -1;
  }
  uint64_t high = low + nlive - 1;
  uint64_t min = low;
  if (first_done) {
    min = last + 1;
  } else if (init == A0_INIT_AWAIT_NEW) {
    min = had_start ? start + 1 : low;
  } else {
    if (had_start && start >= low) {
      return (int)(start - low);
    }
    if (newest) {
      *alt = 0;
      return nlive - 1;
    }
    return 0;
  }
  if (min > high) {
    return -1;
  }
  if (newest) {
    return nlive - 1;
  }
  return min <= low ? 0 : (int)(min - low);
}

static void do_read(void) {
  int alt;
  int e = expected(&alt);
  bool can = 0;
  vh_assert(!a0_reader_sync_zc_can_read(&rd, &can), "asking for availability succeeds");
  vh_assert(can == (e >= 0), "a read is available exactly when there is a message to return");
  if (how && e < 0) {
    return;
  }
  a0_zero_copy_callback_t cb = {NULL, onread};
  calls = 0;
  a0_err_t err;
  if (how == 1) {
    err = a0_reader_sync_zc_read_blocking(&rd, cb);
  } else if (how == 2) {
    int late = (int)vh_concrete(vh_bool());
    a0_time_mono_t t = {{late ? 99 : 101, 0}};
    err = a0_reader_sync_zc_read_blocking_timeout(&rd, &t, cb);
    if (err) {
      // Missed the deadline: nothing is returned and nothing is lost.
      vh_assert((err == A0_ERR_SYS) & (a0_err_syscode == ETIMEDOUT) & late & !calls & !lk_held, "a timed read of an available message fails only after its deadline");
      vh_reach("late");
      return;
    }
  } else {
    err = a0_reader_sync_zc_read(&rd, cb);
  }
  vh_assert(!lk_held & !lk_bad, "a read releases the lock");
  if (e < 0) {
    vh_assert((err == A0_ERR_AGAIN) & !calls, "reading with nothing available asks to try again");
    vh_reach("nothing available");
    return;
  }
  vh_assert((err == A0_OK) & (calls == 1), "a read of an available message succeeds");
  if (alt >= 0 && got_off == at[alt] + FH) {
    e = alt;
  }
  vh_assert(got_off == at[e] + FH, "a read returns the message the start and step mode call for");
  vh_assert(got_len == len[e], "a read returns the whole message");
  first_done = 1;
  last = low + e;
  vh_reach("read");
}

int main() {
  build(N, UP);
  open_tp();
  init = INIT;
  how = (int)vh_concrete(vh_range(0, 2));
  newest = (int)vh_concrete(vh_bool());
  a0_reader_options_t opts = {(a0_reader_init_t)init, newest ? A0_ITER_NEWEST : A0_ITER_NEXT};
  a0_arena_t a = {{arena, asize}, A0_ARENA_MODE_SHARED};
  vh_assert(!a0_reader_sync_zc_init(&rd, a, opts), "opening a reader succeeds");
  had_start = nlive > 0;
  base = low - 1;
  low = 1;
  start = init == A0_INIT_OLDEST ? low : low + nlive - 1;
  for (int i = 0; i < STEPS; i++) {
    switch (vh_concrete(vh_range(0, 3))) {
      case 0: do_write(1); break;
      case 1: do_write(0); break;
      case 2: do_clear(); break;
      default: do_read();
    }
  }
  do_read();
  do_read();
  vh_assert(!lk_held & !lk_bad, "the lock is released");
  return 0;
}
