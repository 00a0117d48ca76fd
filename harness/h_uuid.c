// Generated ids for every output of the random source.
#include <a0/packet.h>
#include <a0/uuid.h>

#include <stdlib.h>
#include <string.h>

#include "vh.h"

// The system random source and generator: arbitrary values.
static uint32_t rnd[2][8];
static int draw[2], run;
uint32_t a0_mrand48() {
  vh_assert(draw[run] < 8, "a bounded number of draws");
  return rnd[run][draw[run]++];
}

static int is_hex(char c) {
  return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f'));
}
static int differ(const char* a, const char* b) {
  unsigned char d = 0;
  for (int i = 0; i < 36; i++) {
    d |= (unsigned char)(a[i] ^ b[i]);
  }
  return d;
}
static void form(const char* s) {
  static const char shape[] = "xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx";
  for (int i = 0; i < 36; i++) {
    if (shape[i] == '-') {
      vh_assert(s[i] == '-', "dashes in place");
    } else if (shape[i] == '4') {
      vh_assert(s[i] == '4', "version four");
    } else if (shape[i] == 'y') {
      vh_assert((s[i] == '8') | (s[i] == '9') | (s[i] == 'A') | (s[i] == 'B') | (s[i] == 'a') | (s[i] == 'b'), "standard variant");
    } else {
      vh_assert(is_hex(s[i]), "hexadecimal digits");
    }
  }
  vh_assert(s[36] == 0, "terminated");
}

int main(void) {
  for (int i = 0; i < 8; i++) {
    rnd[0][i] = 0;
    for (int k = 0; k < 4; k++) {
      rnd[0][i] |= (uint32_t)vh_symr(8, 0, 255) << (8 * k);
    }
    rnd[1][i] = rnd[0][i];
  }
  char* a = malloc(sizeof(a0_uuid_t));
  char* b = malloc(sizeof(a0_uuid_t));
#ifdef H_PACKET
  a0_packet_t pkt;
  vh_assert(a0_packet_init(&pkt) == A0_OK, "packet made");
  form(pkt.id);
  vh_reach("packet id");
#endif
#ifdef H_FORM
  a0_uuidv4(a);
  form(a);
  vh_assert(draw[0] == 4, "128 random bits drawn");
  vh_reach("id");
#endif
#ifdef H_INJ
  // Equal texts come from equal random bits, apart from the six fixed ones.
  a0_uuidv4(a);
  for (int i = 0; i < 4; i++) {
    rnd[1][i] = 0;
    for (int k = 0; k < 4; k++) {
      rnd[1][i] |= (uint32_t)vh_symr(8, 0, 255) << (8 * k);
    }
  }
  run = 1;
  a0_uuidv4(b);
  vh_assume(!differ(a, b));
  int bits = 0;
  for (int i = 0; i < 4; i++) {
    uint32_t x = rnd[0][i] ^ rnd[1][i];
    for (int k = 0; k < 32; k++) {
      bits += (x >> k) & 1;
    }
  }
  vh_assert(bits <= 6, "equal ids come from equal random bits");
  vh_reach("equal ids");
#endif
}
