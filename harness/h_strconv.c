// Numbers as text and back.
//
// The number is given by its decimal digits, so that every 64-bit value is
// covered: all values of up to 19 digits, and the 20-digit values split by how
// long a prefix they share with the largest one.
#include "strconv.h"

#include <a0/err.h>

#include <stdlib.h>
#include <string.h>

#include "vh.h"

static const char MAX64[] = "18446744073709551615";
static const char MAX32[] = "4294967295";

static uint64_t dig[20];
static int nd;

// All values below 2^64 (or 2^32); returns the value.
static uint64_t number(int is32) {
  const char* mx = is32 ? MAX32 : MAX64;
  int len = is32 ? 10 : 20;
  nd = (int)vh_concrete(vh_range(1, len));
#ifdef ND_LO
  vh_assume((nd >= ND_LO) & (nd <= ND_HI));
#endif
  int share = nd < len ? -1 : (int)vh_concrete(vh_range(0, len));
  for (int i = 0; i < nd; i++) {
    int lo = (i == 0 && nd > 1) ? 1 : 0, hi = 9;
    if (share >= 0 && i < share) {
      lo = hi = mx[i] - '0';
    } else if (i == share) {
      hi = mx[i] - '0' - 1;
      if (hi < lo) {
        vh_assume(0);
      }
    }
    dig[i] = lo == hi ? (uint64_t)lo : vh_symr(8, lo, hi);
  }
  uint64_t v = 0;
  for (int i = 0; i < nd; i++) {
    v = v * 10 + dig[i];
  }
  return v;
}

#ifdef H_U64
int main(void) {
  uint64_t v = number(0);
  int pad = (int)vh_concrete(vh_range(0, 2));
  char* buf = malloc(nd + pad);
  char* start = NULL;
  bool want_start = vh_bool();
  vh_assert(a0_u64_to_str(v, buf, buf + nd + pad, want_start ? &start : NULL) == A0_OK, "formatted");
  if (want_start) {
    vh_assert(start == buf + pad, "start points at the first digit");
  }
  for (int i = 0; i < pad; i++) {
    vh_assert(buf[i] == '0', "left padded with zeros");
  }
  for (int i = 0; i < nd; i++) {
    vh_assert(buf[pad + i] == (char)('0' + dig[i]), "decimal digits of the value");
    buf[pad + i] = (char)('0' + dig[i]);  // just shown to be the same
  }
  uint64_t back = 1;
  vh_assert(a0_str_to_u64(buf, buf + nd + pad, &back) == A0_OK, "parsed");
  vh_assert(back == v, "text parses back to the value");
  vh_reach("round trip");
}
#endif

#ifdef H_U32
int main(void) {
  uint32_t v = (uint32_t)number(1);
  int pad = (int)vh_concrete(vh_range(0, 2));
  char* buf = malloc(nd + pad);
  char* start = NULL;
  vh_assert(a0_u32_to_str(v, buf, buf + nd + pad, &start) == A0_OK, "formatted");
  vh_assert(start == buf + pad, "start points at the first digit");
  for (int i = 0; i < pad; i++) {
    vh_assert(buf[i] == '0', "left padded with zeros");
  }
  for (int i = 0; i < nd; i++) {
    vh_assert(buf[pad + i] == (char)('0' + dig[i]), "decimal digits of the value");
    buf[pad + i] = (char)('0' + dig[i]);
  }
  uint32_t back = 1;
  vh_assert(a0_str_to_u32(buf, buf + nd + pad, &back) == A0_OK, "parsed");
  vh_assert(back == v, "text parses back to the value");
  vh_reach("round trip");
}
#endif

#ifdef H_REJECT
int main(void) {
  int n = (int)vh_concrete(vh_range(1, NMAX));
  char* buf = malloc(n);
  int ok = 1;
  for (int i = 0; i < n; i++) {
    buf[i] = (char)vh_u8();
    ok &= (buf[i] >= '0') & (buf[i] <= '9');
  }
  uint64_t a;
  uint32_t b;
  int ra = a0_str_to_u64(buf, buf + n, &a) == A0_OK;
  int rb = a0_str_to_u32(buf, buf + n, &b) == A0_OK;
  vh_assert(ra == ok, "64-bit: accepted exactly when all characters are digits");
  vh_assert(rb == ok, "32-bit: accepted exactly when all characters are digits");
  if (ok) {
    vh_reach("digits");
  } else {
    vh_reach("other text");
  }
}
#endif
