// Replays a schedule of the interleaving engine on the compiled code.
#define _GNU_SOURCE
#define IL_NATIVE
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "il_kernel.h"

static uint32_t ld4(uint64_t a) { return *(volatile uint32_t*)a; }
static uint64_t ld8(uint64_t a) { return *(volatile uint64_t*)a; }
static void st4(uint64_t a, uint32_t v) { *(volatile uint32_t*)a = v; }
#undef il_done

void vt_1(void);
void vt_2(void);
void vt_3(void) __attribute__((weak));
void vt_4(void) __attribute__((weak));
void vt_init(void) __attribute__((weak));
void vt_check(void) __attribute__((weak));
void vt_end(void) __attribute__((weak));
void vt_died(void) __attribute__((weak));
static void il_vt_init(void) { if (vt_init) vt_init(); }
static void il_vt_check(void) { if (vt_check) vt_check(); }
static void il_vt_end(void) { if (vt_end) vt_end(); }
static void il_vt_died(void) { if (vt_died) vt_died(); }
static void il_judge(void) {}
static void il_frozen(void) {}

static int cur;
static unsigned pcs[NT + 1];
static int errnos[NT + 1];
int* il_native_errno(void) { return &errnos[cur]; }
void il_native_yield(int pc) {
  pcs[cur] = pc;
  int me = cur;
  vh_switch(0);
  cur = me;
}
long syscall(long nr, ...) {
  va_list ap;
  uint64_t a[6];
  va_start(ap, nr);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, uint64_t);
  va_end(ap);
  int me = cur;
  k_syscall(me, nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (k_st[me] != K_RUN) il_native_yield(pcs[me] + 1);
  if (k_err[me]) {
    errnos[me] = k_err[me];
    return -1;
  }
  return k_ret[me];
}
static void body(void* arg) {
  void (*fn[])(void) = {0, vt_1, vt_2, vt_3, vt_4};
  int me = (int)(intptr_t)arg;
  fn[me]();
  il_done_[me] = 1;
}
static void il_start(int t) {
  vh_spawn(body, (void*)(intptr_t)t);
  cur = t;
  vh_switch(t);
  cur = 0;
}
static void il_run(int t, unsigned stop) {
  unsigned last = 0;
  while (!il_done_[t] && k_st[t] == K_RUN && pcs[t] > last && pcs[t] < stop) {
    last = pcs[t];
    if (getenv("IL_TRACE")) fprintf(stderr, "IL %d %u\n", t, last);
    cur = t;
    vh_switch(t);
    cur = 0;
  }
}
static unsigned il_maxpc(int t) { return 255; }
#include "il_main.h"
