// Vocabulary of the interleaving harnesses.
#include <a0/err.h>
#include <a0/mtx.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <time.h>
#include <stdbool.h>
#include <stdint.h>

#include "vh.h"

#define GHOST __attribute__((section("ghost")))
int vh_self(void);
void vh_yield_(void);
int il_done(int t);
int il_dead(int t);
int il_asleep(int t);
int il_timeouts(int t);
int il_dying(void);
int il_intr(int t);

// a0_err_t results without the library's reporting.
extern A0_THREAD_LOCAL int a0_err_syscode;
static int code(a0_err_t err) { return err == A0_ERR_SYS ? a0_err_syscode : err ? 10000 + err : 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) { return 0; }
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return 0; }
int clock_gettime(clockid_t clk, struct timespec* ts) {
  ts->tv_sec = 1000;
  ts->tv_nsec = 0;
  return 0;
}
