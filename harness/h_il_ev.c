// C17: events and latches under every interleaving.
//
// Threads do R1, R2, R3, R4: wait, wait with a deadline, set (count down), ask,
// arrive and wait.  LATCH: a latch counting down from any number by any steps.
#include "il.h"
#include <a0/event.h>
#include <a0/latch.h>

enum { WAIT, TIMED, SET, ASK, ARRIVE };

GHOST static int32_t begun, ended, need;
GHOST static int32_t step[5];

#ifdef LATCH
static a0_latch_t l;
void vt_init(void) {
  need = vh_sym(32);
  vh_assume(need >= -900000000 && need <= 1200000000);
  for (int t = 1; t <= 4; t++) {
    step[t] = vh_sym(32);
    vh_assume(step[t] >= 0 && step[t] <= 400000000);
  }
  vh_assert(a0_latch_init(&l, need) == 0, "the latch is made");
}
#define ISSET(N) ((N) >= need)
#else
static a0_event_t l;
void vt_init(void) {
  need = 1;
  for (int t = 1; t <= 4; t++) step[t] = 1;
}
#define ISSET(N) ((N) >= 1)
#endif

static void use(int me, int what) {
  a0_time_mono_t deadline = {{1, 0}};
  int done_before = ISSET(ended);
  if (what == SET || what == ARRIVE) begun += step[me];
#ifdef LATCH
  if (what == WAIT || what == ARRIVE) {
    int e = code(what == WAIT ? a0_latch_wait(&l) : a0_latch_arrive_and_wait(&l, step[me]));
    vh_assert(e == 0, "the wait works");
    vh_assert(ISSET(begun), "a wait ends only when the count reached zero");
    if (done_before) {
      vh_reach("nothing to wait for");
    } else {
      vh_reach("waited");
    }
  } else if (what == SET) {
    vh_assert(code(a0_latch_count_down(&l, step[me])) == 0, "counting down works");
  } else {
    bool out = vh_sym(8) & 1;
    vh_assert(code(a0_latch_try_wait(&l, &out)) == 0, "asking works");
    vh_assert(!out || ISSET(begun), "it says zero only when the count reached zero");
    vh_assert(out || !done_before, "it says so once it has");
  }
#else
  if (what == WAIT) {
    vh_assert(code(a0_event_wait(&l)) == 0, "the wait works");
    vh_assert(ISSET(begun), "a wait ends only when the event is set");
    if (done_before) {
      vh_reach("nothing to wait for");
    } else {
      vh_reach("waited");
    }
  } else if (what == TIMED) {
    int e = code(a0_event_timedwait(&l, &deadline));
    vh_assert(e == 0 || e == ETIMEDOUT, "the wait works or times out");
    vh_assert(e || ISSET(begun), "a wait ends only when the event is set");
    vh_assert(!e || (il_timeouts(me) && !done_before), "it times out only after the deadline");
    if (e) {
      vh_reach("timed out");
    } else {
      vh_reach("waited");
    }
  } else if (what == SET) {
    vh_assert(code(a0_event_set(&l)) == 0, "setting works");
  } else {
    bool out = vh_sym(8) & 1;
    vh_assert(code(a0_event_is_set(&l, &out)) == 0, "asking works");
    vh_assert(!out || ISSET(begun), "it says set only when it is");
    vh_assert(out || !done_before, "it says so once it is");
  }
#endif
  if (what == SET || what == ARRIVE) ended += step[me];
}
void vt_1(void) { use(1, R1); }
void vt_2(void) { use(2, R2); }
#if THREADS > 2
void vt_3(void) { use(3, R3); }
#endif
#if THREADS > 3
void vt_4(void) { use(4, R4); }
#endif
// Everything that sleeps now sleeps for ever.
void vt_end(void) {
  int32_t sum = 0;
  int roles[] = {0, R1, R2, R3, R4};
  for (int t = 1; t <= THREADS; t++) {
    if (roles[t] == SET || roles[t] == ARRIVE) sum += step[t];
  }
  int waits = 0;
  for (int t = 1; t <= THREADS; t++) {
    waits |= !il_done(t);
    vh_assert(il_done(t) || roles[t] == WAIT || roles[t] == ARRIVE, "only waits block");
    vh_assert(il_done(t) || !ISSET(sum), "nobody waits once it is set");
  }
  if (waits) {
    vh_reach("a wait that never ends");
  }
}
