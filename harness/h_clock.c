// Time addition and clock conversion.
#include <a0/err.h>
#include <a0/time.h>

#include <stdlib.h>
#include <time.h>

#include "vh.h"

#define NS 1000000000ll

static struct timespec now_a, now_b;
static int clk_a, clk_b, reads_a, reads_b, gettime_fails;
int vh_clock_gettime(clockid_t clk, struct timespec* out) {
  if (gettime_fails) {
    return -1;
  }
  vh_assert(clk == clk_a || clk == clk_b, "one of the two clocks");
  if (clk == clk_a) {
    reads_a++;
    *out = now_a;
  } else {
    reads_b++;
    *out = now_b;
  }
  return 0;
}
#define clock_gettime vh_clock_gettime
#include "clock.h"

// Any duration with |d| <= 2^63 - 1 ns (and the most negative one), as seconds and nanoseconds of one sign.
static int neg;
static int64_t dsec, dns;
static void duration(void) {
  neg = (int)vh_concrete(vh_bool());
  int top = (int)vh_concrete(vh_bool());
  dsec = top ? 9223372036ll : (int64_t)vh_symr(64, 0, 9223372035ll);
  dns = (int64_t)vh_symr(32, 0, top ? (neg ? 854775808 : 854775807) : NS - 1);
  if (neg) {
    dsec = -dsec;
    dns = -dns;
  }
}
static struct timespec instant(void) {
  struct timespec t;
  t.tv_sec = (int64_t)vh_u64();
  vh_assume((t.tv_sec < (1ll << 61)) & (t.tv_sec > -(1ll << 61)));
  t.tv_nsec = (int64_t)vh_symr(32, 0, NS - 1);
  return t;
}
// out == in + (dsec, dns), out normalised
static void exact(struct timespec in, struct timespec out) {
  vh_assert((out.tv_nsec >= 0) & (out.tv_nsec < NS), "normalised");
  int64_t es = out.tv_sec - in.tv_sec - dsec, en = out.tv_nsec - in.tv_nsec - dns;
  vh_assert(((es == 0) & (en == 0)) | ((es == 1) & (en == -NS)) | ((es == -1) & (en == NS)), "exactly that far away");
}

#ifdef H_ADD
int main(void) {
  struct timespec in = instant();
  duration();
  int64_t d = dsec * NS + dns;
  a0_time_mono_t m = {in}, mo;
  vh_assert(a0_time_mono_add(m, d, &mo) == A0_OK, "added");
  exact(in, mo.ts);
  struct timespec o;
  vh_assert(a0_clock_add(in, d, &o) == A0_OK, "added");
  exact(in, o);
  // In place.
  a0_time_mono_t io = m;
  vh_assert(a0_time_mono_add(io, d, &io) == A0_OK && io.ts.tv_sec == mo.ts.tv_sec && io.ts.tv_nsec == mo.ts.tv_nsec, "in place");
  if (neg) {
    vh_reach("backwards");
  } else {
    vh_reach("forwards");
  }
}
#endif

#ifdef H_CONVERT
int main(void) {
  clk_a = CLOCK_BOOTTIME;
  clk_b = CLOCK_MONOTONIC;
  now_a = instant();
  now_b = instant();
  vh_assume((now_a.tv_sec >= 0) & (now_b.tv_sec >= 0));
  // Deadline = now of the first clock + (ds, dn); the distance must fit in 64-bit nanoseconds.
  int sgn = (int)vh_concrete(vh_range(0, 2)) - 1, nsgn = (int)vh_concrete(vh_range(0, 2)) - 1;
  int64_t ds = sgn * (int64_t)vh_symr(64, 1, 9223372034ll);
  int64_t dn = nsgn * (int64_t)vh_symr(32, 1, NS - 1);
  struct timespec t;
  t.tv_sec = now_a.tv_sec + ds;
  t.tv_nsec = now_a.tv_nsec + dn;
  vh_assume((t.tv_nsec >= 0) & (t.tv_nsec < NS));
  gettime_fails = (int)vh_concrete(vh_bool());
  struct timespec o;
  a0_err_t err = a0_clock_convert(clk_a, t, clk_b, &o);
  if (gettime_fails) {
    vh_assert(err != A0_OK, "clock errors are reported");
    vh_reach("clock error");
    return 0;
  }
  vh_assert(err == A0_OK, "converted");
  vh_assert(reads_a >= 1 && reads_b >= 1, "both clocks read");
  vh_assert((o.tv_nsec >= 0) & (o.tv_nsec < NS), "normalised");
  int64_t nn = now_b.tv_nsec + dn, sec = now_b.tv_sec + ds + (nn >= NS) - (nn < 0);
  if (sec < 0) {
    // before the target clock started
    vh_assert((o.tv_sec < now_b.tv_sec) | ((o.tv_sec == now_b.tv_sec) & (o.tv_nsec <= now_b.tv_nsec)), "a passed deadline stays passed");
    vh_reach("before the clock started");
    return 0;
  }
  // o - now_b == t - now_a
  int64_t es = (o.tv_sec - now_b.tv_sec) - ds, en = (o.tv_nsec - now_b.tv_nsec) - dn;
  vh_assert(((es == 0) & (en == 0)) | ((es == 1) & (en == -NS)) | ((es == -1) & (en == NS)), "as far from the target clock's now");
  vh_reach("converted");
}
#endif
