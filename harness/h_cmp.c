// Comparators: antisymmetric, transitive, zero exactly on equality, and equal
// values hash equally.
#include <a0/buf.h>
#include <a0/cmp.h>
#include <a0/uuid.h>

#include <stdlib.h>
#include <string.h>

#include "vh.h"

#ifndef VH_CBMC
#include <sys/mman.h>
#endif

static int sgn(int x) { return (x > 0) - (x < 0); }

static int cmp(a0_cmp_t c, const void* a, const void* b) {
  int out = 12345;
  vh_assert(a0_cmp_eval(c, a, b, &out) == A0_OK, "comparison succeeds");
  return sgn(out);
}
static size_t hash(a0_hash_t h, const void* a) {
  size_t out = 0;
  vh_assert(a0_hash_eval(h, a, &out) == A0_OK, "hash succeeds");
  return out;
}

// x_copy is a separate copy of x's value.
static void laws(a0_cmp_t c, a0_hash_t h, const void* x, const void* y, const void* z, const void* x_copy, int eq_xy) {
  int xy = cmp(c, x, y), yx = cmp(c, y, x), yz = cmp(c, y, z), xz = cmp(c, x, z);
  vh_assert(xy == -yx, "antisymmetric");
  vh_assert((xy == 0) == eq_xy, "zero exactly on equal values");
  vh_assert(cmp(c, x, x) == 0, "reflexive");
  vh_assert(!(xy <= 0 && yz <= 0) || xz <= 0, "transitive");
  vh_assert(!(xy == 0 && yz == 0) || xz == 0, "equality transitive");
  vh_assert(!(xy < 0 && yz < 0) || xz < 0, "strictly transitive");
  if (xy == 0) {
    vh_reach("equal pair");
  } else {
    vh_reach("unequal pair");
  }
  vh_assert(cmp(c, x, x_copy) == 0, "copies compare equal");
  vh_assert(hash(h, x) == hash(h, x_copy), "equal values hash equally");
}

#if defined(H_U32)
int main(void) {
  uint32_t x = vh_u32(), y = vh_u32(), z = vh_u32(), xc = x;
  laws(A0_CMP_U32, A0_HASH_U32, &x, &y, &z, &xc, x == y);
}
#elif defined(H_PTR)
int main(void) {
  uintptr_t x = vh_u64(), y = vh_u64(), z = vh_u64(), xc = x;
  laws(A0_CMP_PTR, A0_HASH_PTR, &x, &y, &z, &xc, x == y);
}
#elif defined(H_STR)
int main(void) {
  char s[3][4];
  const char* p[3];
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {
      s[i][j] = (char)vh_u8();
    }
    s[i][3] = 0;
    p[i] = s[i];
  }
  int eq = 1;
  for (int j = 0; j < 4 && eq; j++) {
    if (s[0][j] != s[1][j]) {
      eq = 0;
    }
    if (!s[0][j]) {
      break;
    }
  }
  char copy[4];
  const char* pc = copy;
  int ended = 0;
  for (int j = 0; j < 4; j++) {
    copy[j] = ended ? (char)vh_u8() : s[0][j];
    ended |= !copy[j];
  }
  laws(A0_CMP_STR, A0_HASH_STR, &p[0], &p[1], &p[2], &pc, eq);
}
#elif defined(H_BUF)
int main(void) {
  uint8_t* s[3];
  a0_buf_t b[3];
  for (int i = 0; i < 3; i++) {
    size_t n = vh_range(0, 3);
    s[i] = malloc(n);
    for (size_t j = 0; j < n; j++) {
      s[i][j] = vh_u8();
    }
    b[i] = (a0_buf_t){s[i], n};
  }
  int eq = b[0].size == b[1].size;
  for (size_t j = 0; eq && j < b[0].size; j++) {
    if (s[0][j] != s[1][j]) {
      eq = 0;
    }
  }
  a0_buf_t copy = {malloc(b[0].size), b[0].size};
  for (size_t j = 0; j < copy.size; j++) {
    copy.data[j] = s[0][j];
  }
  laws(A0_CMP_BUF, A0_HASH_BUF, &b[0], &b[1], &b[2], &copy, eq);
}
#elif defined(H_BIGBUF)
// Buffers of different, possibly very large, sizes.
int main(void) {
  a0_buf_t b[3];
  for (int i = 0; i < 3; i++) {
    b[i].size = vh_range(1, 1ull << 34);
#ifdef VH_CBMC
    b[i].data = malloc(b[i].size);
#else
    b[i].data = mmap(0, b[i].size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vh_assume(b[i].data != MAP_FAILED);
#endif
  }
  vh_assume(b[0].size != b[1].size && b[1].size != b[2].size && b[0].size != b[2].size);
  int xy = cmp(A0_CMP_BUF, &b[0], &b[1]), yx = cmp(A0_CMP_BUF, &b[1], &b[0]);
  int yz = cmp(A0_CMP_BUF, &b[1], &b[2]), xz = cmp(A0_CMP_BUF, &b[0], &b[2]);
  vh_assert(xy == -yx, "antisymmetric");
  vh_assert(xy != 0, "different sizes are not equal");
  vh_assert(!(xy < 0 && yz < 0) || xz < 0, "strictly transitive");
  vh_reach("large sizes compared");
}
#elif defined(H_UUID)
int main(void) {
  a0_uuid_t* u[3];
  for (int i = 0; i < 3; i++) {
    u[i] = malloc(sizeof(a0_uuid_t));
    for (size_t j = 0; j < sizeof(a0_uuid_t); j++) {
      (*u[i])[j] = (char)vh_u8();
    }
  }
  int eq = 1;
  for (size_t j = 0; j < sizeof(a0_uuid_t); j++) {
    if ((*u[0])[j] != (*u[1])[j]) {
      eq = 0;
    }
  }
  a0_uuid_t* copy = malloc(sizeof(a0_uuid_t));
  for (size_t j = 0; j < sizeof(a0_uuid_t); j++) {
    (*copy)[j] = (*u[0])[j];
  }
  laws(A0_CMP_UUID, A0_HASH_UUID, u[0], u[1], u[2], copy, eq);
}
#endif
