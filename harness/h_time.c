// Timestamps as text and back.
#include <a0/err.h>
#include <a0/time.h>

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#include "vh.h"

static uint64_t horner(const uint64_t* d, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) {
    v = v * 10 + d[i];
  }
  return v;
}

// Calendar conversions are the C library's: gmtime_r returns arbitrary fields
// for the given instant, and timegm of those fields returns that instant.
static struct tm cal;
static time_t cal_sec;
static int timegm_calls, cal_valid;
struct tm* vh_gmtime_r(const time_t* t, struct tm* out) {
  vh_assert(*t == cal_sec, "calendar of the given instant");
  *out = cal;
  return out;
}
time_t vh_timegm(struct tm* t) {
  timegm_calls++;
  if (cal_valid) {
    vh_assert(t->tm_year == cal.tm_year, "year survives");
    vh_assert(t->tm_mon == cal.tm_mon, "month survives");
    vh_assert(t->tm_mday == cal.tm_mday, "day survives");
    vh_assert(t->tm_hour == cal.tm_hour, "hour survives");
    vh_assert(t->tm_min == cal.tm_min, "minute survives");
    vh_assert(t->tm_sec == cal.tm_sec, "second survives");
  }
  return cal_sec;
}
// Subset of the C library's strftime.
static int two(char* o, int v) {
  o[0] = (char)('0' + v / 10);
  o[1] = (char)('0' + v % 10);
  return 2;
}
size_t vh_strftime(char* s, size_t max, const char* f, const struct tm* t) {
  char o[64];
  int n = 0;
  for (; *f; f++) {
    if (*f != '%') {
      o[n++] = *f;
      continue;
    }
    f++;
    switch (*f) {
      case 'Y':
        n += two(o + n, (t->tm_year + 1900) / 100);
        n += two(o + n, (t->tm_year + 1900) % 100);
        break;
      case 'm':
        n += two(o + n, t->tm_mon + 1);
        break;
      case 'd':
        n += two(o + n, t->tm_mday);
        break;
      case 'H':
        n += two(o + n, t->tm_hour);
        break;
      case 'M':
        n += two(o + n, t->tm_min);
        break;
      case 'S':
        n += two(o + n, t->tm_sec);
        break;
      case 'F':
        n += (int)vh_strftime(o + n, 40, "%Y-%m-%d", t);
        break;
      case 'T':
        n += (int)vh_strftime(o + n, 40, "%H:%M:%S", t);
        break;
      default:
        vh_assume(0);
    }
  }
  if ((size_t)n + 1 > max) {
    return 0;
  }
  memcpy(s, o, n);
  s[n] = 0;
  return n;
}

#ifdef H_MONO
int main(void) {
  uint64_t d[19];
  for (int i = 0; i < 19; i++) {
    d[i] = vh_symr(8, 0, 9);
  }
  a0_time_mono_t t;
  t.ts.tv_sec = (time_t)horner(d, 10);
  t.ts.tv_nsec = (long)horner(d + 10, 9);
  char* str = malloc(20);
  vh_assert(a0_time_mono_str(t, str) == A0_OK, "formatted");
  for (int i = 0; i < 19; i++) {
    vh_assert(str[i] == (char)('0' + d[i]), "nanoseconds as 19 digits");
    str[i] = (char)('0' + d[i]);  // just shown to be the same
  }
  vh_assert(str[19] == 0, "terminated");
  a0_time_mono_t back;
  vh_assert(a0_time_mono_parse(str, &back) == A0_OK, "parsed");
  vh_assert(back.ts.tv_sec == t.ts.tv_sec && back.ts.tv_nsec == t.ts.tv_nsec, "text parses back to the same instant");
  vh_reach("mono round trip");
}
#endif

#ifdef H_MONO_REJECT
int main(void) {
  char* str = malloc(20);
  int ok = 1;
  for (int i = 0; i < 19; i++) {
    str[i] = (char)vh_u8();
    ok &= (str[i] >= '0') & (str[i] <= '9');
  }
  str[19] = 0;
  a0_time_mono_t out;
  int acc = a0_time_mono_parse(str, &out) == A0_OK;
  vh_assert(acc == ok, "accepted exactly when it is 19 digits");
  if (acc) {
    vh_reach("accepted");
  } else {
    vh_reach("rejected");
  }
}
#endif

#ifdef H_WALL
// Year 1000 to 9999 (the text form has four year digits).
int main(void) {
  uint64_t y[4], ns[9];
  for (int i = 0; i < 4; i++) {
    y[i] = vh_symr(8, i == 0 ? 1 : 0, 9);
  }
  for (int i = 0; i < 9; i++) {
    ns[i] = vh_symr(8, 0, 9);
  }
  // Two-digit fields as tens and units.
  int mon_t = (int)vh_concrete(vh_range(0, 1)), day_t = (int)vh_concrete(vh_range(0, 3)), hour_t = (int)vh_concrete(vh_range(0, 2));
  uint64_t f[5][2];
  f[0][0] = mon_t;
  f[0][1] = vh_symr(8, mon_t == 0 ? 1 : 0, mon_t == 0 ? 9 : 2);
  f[1][0] = day_t;
  f[1][1] = vh_symr(8, day_t == 0 ? 1 : 0, day_t == 3 ? 1 : 9);
  f[2][0] = hour_t;
  f[2][1] = vh_symr(8, 0, hour_t == 2 ? 3 : 9);
  f[3][0] = vh_symr(8, 0, 5);
  f[3][1] = vh_symr(8, 0, 9);
  int leap = vh_bool();  // a leap second
  f[4][0] = leap ? 6 : vh_symr(8, 0, 5);
  f[4][1] = leap ? 0 : vh_symr(8, 0, 9);
  cal.tm_year = (int)horner(y, 4) - 1900;
  cal.tm_mon = (int)horner(f[0], 2) - 1;
  cal.tm_mday = (int)horner(f[1], 2);
  cal.tm_hour = (int)horner(f[2], 2);
  cal.tm_min = (int)horner(f[3], 2);
  cal.tm_sec = (int)horner(f[4], 2);
  cal_sec = (time_t)vh_u64();
  cal_valid = 1;
  a0_time_wall_t t;
  t.ts.tv_sec = cal_sec;
  t.ts.tv_nsec = (long)horner(ns, 9);
  char want[36];
  memcpy(want, "dddd-dd-ddTdd:dd:dd.ddddddddd-00:00", 36);
  for (int i = 0; i < 4; i++) {
    want[i] = (char)('0' + y[i]);
  }
  static const int pos[5] = {5, 8, 11, 14, 17};
  for (int k = 0; k < 5; k++) {
    want[pos[k]] = (char)('0' + f[k][0]);
    want[pos[k] + 1] = (char)('0' + f[k][1]);
  }
  for (int i = 0; i < 9; i++) {
    want[20 + i] = (char)('0' + ns[i]);
  }
  char* str = malloc(36);
  vh_assert(a0_time_wall_str(t, str) == A0_OK, "formatted");
  for (int i = 0; i < 36; i++) {
    vh_assert(str[i] == want[i], "calendar fields and nine fraction digits in the documented form");
    str[i] = want[i];
  }
  a0_time_wall_t back;
  vh_assert(a0_time_wall_parse(str, &back) == A0_OK, "parsed");
  vh_assert(timegm_calls == 1 && back.ts.tv_sec == t.ts.tv_sec, "seconds parse back");
  vh_assert(back.ts.tv_nsec == t.ts.tv_nsec, "fraction parses back");
  vh_reach("wall round trip");
}
#endif

#ifdef H_WALL_REJECT
static int isdig(char c) { return (c >= '0') & (c <= '9'); }
int main(void) {
  char* str = malloc(36);
  static const char shape[] = "dddd-dd-ddTdd:dd:dd.ddddddddd-00:00";
  int ok = 1;
  for (int i = 0; i < 35; i++) {
    str[i] = (char)vh_u8();
    ok &= shape[i] == 'd' ? isdig(str[i]) : str[i] == shape[i];
  }
  str[35] = 0;
#define TWO(P) ((str[P] - '0') * 10 + (str[P + 1] - '0'))
  int mon = TWO(5), day = TWO(8), hour = TWO(11), min = TWO(14), sec = TWO(17);
  int must = ok & (mon >= 1) & (mon <= 12) & (day >= 1) & (day <= 31) & (hour <= 23) & (min <= 59) & (sec <= 60);
  // A parser may be lenient about 24:00:00, minute 60 and second 61.
  int may = ok & (mon >= 1) & (mon <= 12) & (day >= 1) & (day <= 31) & (hour <= 24) & (min <= 60) & (sec <= 61);
  a0_time_wall_t out;
  int acc = a0_time_wall_parse(str, &out) == A0_OK;
  vh_assert(!acc | may, "only the documented form is accepted");
  vh_assert(acc | !must, "every text in the documented form is accepted");
  if (acc) {
    vh_assert(out.ts.tv_sec == cal_sec, "seconds from the calendar fields");
    vh_reach("accepted");
  } else {
    vh_reach("rejected");
  }
}
#endif
