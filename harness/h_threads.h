// Cooperative stand-ins for the mutex, condition variable, event and threads
// used by a reader and the thread that closes it.
#include <a0/event.h>
#include <pthread.h>
#include <time.h>

// ---- threads: 0 = the writers (and the schedule), 1 = reader, 2 = closer
enum { RUN, LOCK, SLEEP, EVENT, JOIN };
static int cur, want[3], started[3], owner = -1, ev_set, bad_lock, spurious;

static void give_way(int why) {
  int me = cur;
  want[me] = why;
  cur = 0;
  vh_switch(0);
  cur = me;
  want[me] = RUN;
}
static int enabled(int t) {
  if (!started[t] || vh_done(t)) return 0;
  switch (want[t]) {
    case LOCK: return owner < 0;
    case EVENT: return ev_set;
    case JOIN: return started[1] && vh_done(1);
    case SLEEP: return 0;
    default: return 1;
  }
}
static void run(int t) { cur = t; vh_switch(t); cur = 0; }

a0_err_t a0_mtx_lock(a0_mtx_t* m) {
  if (owner == cur) return sys_err(EDEADLK);
  if (cur) give_way(LOCK);
  bad_lock |= owner >= 0;
  owner = cur;
  return A0_OK;
}
a0_err_t a0_mtx_unlock(a0_mtx_t* m) {
  if (owner != cur) return sys_err(EPERM);
  owner = -1;
  return A0_OK;
}
a0_err_t a0_cnd_broadcast(a0_cnd_t* c, a0_mtx_t* m) {
  for (int t = 1; t < 3; t++) {
    if (want[t] == SLEEP) want[t] = LOCK;
  }
  return A0_OK;
}
#ifndef OWN_CLOCK
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
  bad_lock |= owner != cur;
  owner = -1;
  give_way(SLEEP);
  bad_lock |= owner >= 0;
  owner = cur;
  return A0_OK;
}
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return a0_cnd_timedwait(c, m, NULL); }
#endif
a0_err_t a0_event_set(a0_event_t* e) { ev_set = 1; return A0_OK; }
a0_err_t a0_event_wait(a0_event_t* e) {
  if (cur) give_way(EVENT);
  return A0_OK;
}
uint32_t a0_tid(void) { return 100 + cur; }
pthread_t pthread_self(void) { return 0x7000 + cur; }
static void* (*thread_fn)(void*);
static void* thread_arg;
static void thread_run(void* u) { thread_fn(thread_arg); }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  thread_fn = fn;
  thread_arg = arg;
  *t = 0x7001;
  vh_assert(vh_spawn(thread_run, NULL) == 1, "a reader has one thread");
  started[1] = 1;
  return 0;
}
int pthread_join(pthread_t t, void** out) {
  if (t == (pthread_t)(0x7000 + cur)) return EDEADLK;
  if (cur) give_way(JOIN);
  return 0;
}
#ifndef OWN_CLOCK
int clock_gettime(clockid_t c, struct timespec* ts) {
  ts->tv_sec = 100;
  ts->tv_nsec = 0;
  return 0;
}
#endif
