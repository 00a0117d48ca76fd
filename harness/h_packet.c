// Packet codec: serialise/deserialise/deep-copy round trips against plain
// arrays, with symbolic header shapes, contents and allocator outcome.
#include <a0/alloc.h>
#include <a0/packet.h>

#include <string.h>

#include "vh.h"

#ifndef NB0  // headers in the first block
#define NB0 1
#endif
#ifndef NB1  // headers in the second block
#define NB1 1
#endif
#ifndef NB2
#define NB2 0
#endif
#ifndef SLEN  // longest key / value
#define SLEN 2
#endif
#ifndef PLEN  // longest payload
#define PLEN 3
#endif
#define NH (NB0 + NB1 + NB2)
#define OUT_CAP (37 + 8 + 16 * NH + 8 + NH * 2 * (SLEN + 1) + PLEN + 16 * NH + 8)

static char keys[NH + 1][SLEN + 1], vals[NH + 1][SLEN + 1];
static a0_packet_header_t hdrs[NH + 1];
static uint8_t payload[PLEN + 1];
static size_t klen[NH + 1], vlen[NH + 1], plen;
static a0_packet_t pkt;
static a0_packet_headers_block_t blk1, blk2;

static size_t symstr(char* s) {
  for (int i = 0; i < SLEN; i++) {
    s[i] = (char)vh_u8();
  }
  s[SLEN] = 0;
  return strlen(s);
}

static void make(void) {
  for (int i = 0; i < NH; i++) {
    klen[i] = symstr(keys[i]);
    vlen[i] = symstr(vals[i]);
    hdrs[i] = (a0_packet_header_t){keys[i], vals[i]};
  }
  plen = vh_range(0, PLEN);
  for (int i = 0; i < PLEN; i++) {
    payload[i] = vh_u8();
  }
  for (int i = 0; i < 36; i++) {
    pkt.id[i] = (char)vh_u8();
  }
  pkt.payload = (a0_buf_t){payload, plen};
  pkt.headers_block = (a0_packet_headers_block_t){hdrs, NB0, NULL};
#ifdef BLOCKS3
  pkt.headers_block.next_block = &blk1;
  blk1 = (a0_packet_headers_block_t){hdrs + NB0, NB1, &blk2};
  blk2 = (a0_packet_headers_block_t){hdrs + NB0 + NB1, NB2, NULL};
#else
  if (NB1) {
    pkt.headers_block.next_block = &blk1;
    blk1 = (a0_packet_headers_block_t){hdrs + NB0, NB1, NULL};
  }
#endif
}

static _Alignas(16) uint8_t mem[2][OUT_CAP];
// Every byte holds `fill` until the code under test writes it.
static uint8_t fill;
static void prefill(int k) {
  fill = vh_u8();
  memset(mem[k], fill, OUT_CAP);
}
static void untouched(int k, size_t from) {
  int ok = 1;
  for (size_t i = from; i < OUT_CAP; i++) {
    ok &= mem[k][i] == fill;
  }
  vh_assert(ok, "nothing written outside the requested memory");
}

static size_t asked[2];
static int nallocs;
static int alloc_fails;

static a0_err_t alloc_fn(void* ud, size_t size, a0_buf_t* out) {
  (void)ud;
  if (alloc_fails) {
    return A0_ERR_FRAME_LARGE;
  }
  vh_assert(nallocs < 2, "one allocation per operation");
  vh_assert(size <= OUT_CAP, "allocation request is not larger than the content needs");
  asked[nallocs] = size;
  *out = (a0_buf_t){mem[nallocs], size};
  nallocs++;
  return A0_OK;
}

static a0_alloc_t alloc = {NULL, alloc_fn, NULL};

static size_t content_size(void) {
  size_t c = plen;
  for (int i = 0; i < NH; i++) {
    c += klen[i] + 1 + vlen[i] + 1;
  }
  return c;
}

static int streq(const char* a, const char* b) { return strcmp(a, b) == 0; }

static void check_hdr(a0_packet_header_t h, int i) {
  vh_assert(streq(h.key, keys[i]), "header key preserved");
  vh_assert(streq(h.val, vals[i]), "header value preserved");
}
static void check_payload(a0_buf_t b) {
  vh_assert(b.size == plen, "payload size preserved");
  vh_assert(memcmp(b.data, payload, plen) == 0, "payload bytes preserved");
}
static void check_id(const char* id) {
  vh_assert(memcmp(id, pkt.id, 37) == 0, "id preserved");
}
static void check_packet(a0_packet_t* p) {
  check_id(p->id);
  check_payload(p->payload);
  a0_packet_header_iterator_t it;
  a0_packet_header_iterator_init(&it, p);
  a0_packet_header_t h;
  for (int i = 0; i < NH; i++) {
    vh_assert(a0_packet_header_iterator_next(&it, &h) == A0_OK, "iterator yields every header");
    check_hdr(h, i);
  }
  vh_assert(a0_packet_header_iterator_next(&it, &h) == A0_ERR_ITER_DONE, "iterator ends after the last header");
}

#if defined(H_FLAT)
int main(void) {
  make();
  a0_packet_stats_t st;
  vh_assert(a0_packet_stats(pkt, &st) == A0_OK, "stats succeed");
  vh_assert(st.num_hdrs == NH, "stats count every header");
  vh_assert(st.content_size == content_size(), "stats content size");
  prefill(0);

  alloc_fails = vh_bool();
  a0_flat_packet_t fp = {{NULL, 0}};
  a0_err_t err = a0_packet_serialize(pkt, alloc, &fp);
  if (alloc_fails) {
    vh_assert(err == A0_ERR_FRAME_LARGE, "allocator error is returned");
    untouched(0, 0);
    vh_reach("allocation failed");
    return 0;
  }
  vh_assert(err == A0_OK && nallocs == 1, "serialise succeeds");
  vh_assert(asked[0] == st.serial_size && fp.buf.size == st.serial_size, "predicted size is the size used");
  vh_assert(st.serial_size == 37 + 8 + 16 * NH + 8 + content_size(), "serial size follows the format");
  untouched(0, st.serial_size);

  a0_packet_stats_t fst;
  vh_assert(a0_flat_packet_stats(fp, &fst) == A0_OK, "flat stats succeed");
  vh_assert(fst.num_hdrs == NH && fst.content_size == st.content_size && fst.serial_size == st.serial_size, "flat stats agree");
  a0_uuid_t* id;
  vh_assert(a0_flat_packet_id(fp, &id) == A0_OK, "flat id succeeds");
  check_id(*id);
  a0_buf_t pl;
  vh_assert(a0_flat_packet_payload(fp, &pl) == A0_OK, "flat payload succeeds");
  check_payload(pl);
  a0_packet_header_t h;
  for (int i = 0; i < NH; i++) {
    vh_assert(a0_flat_packet_header(fp, i, &h) == A0_OK, "flat header present");
    check_hdr(h, i);
  }
  size_t bad = vh_u64();
  vh_assume(bad >= NH);
  vh_assert(a0_flat_packet_header(fp, bad, &h) == A0_ERR_NOT_FOUND, "flat header index past the end is refused");
  a0_flat_packet_header_iterator_t it;
  a0_flat_packet_header_iterator_init(&it, &fp);
  for (int i = 0; i < NH; i++) {
    vh_assert(a0_flat_packet_header_iterator_next(&it, &h) == A0_OK, "flat iterator yields every header");
    check_hdr(h, i);
  }
  vh_assert(a0_flat_packet_header_iterator_next(&it, &h) != A0_OK, "flat iterator ends");
  // Lookup by key.
  char q[SLEN + 1];
  symstr(q);
  a0_flat_packet_header_iterator_init(&it, &fp);
  for (int i = 0; i < NH; i++) {
    if (streq(q, keys[i])) {
      vh_assert(a0_flat_packet_header_iterator_next_match(&it, q, &h) == A0_OK, "flat lookup finds every match");
      check_hdr(h, i);
#if NH
      vh_reach("flat lookup matched");
#endif
    }
  }
  vh_assert(a0_flat_packet_header_iterator_next_match(&it, q, &h) != A0_OK, "flat lookup finds nothing else");
  vh_reach("flat round trip");
}
#elif defined(H_DESER)
int main(void) {
  make();
  a0_flat_packet_t fp;
  vh_assert(a0_packet_serialize(pkt, alloc, &fp) == A0_OK, "serialise succeeds");
  prefill(1);
  alloc_fails = vh_bool();
  a0_packet_t out;
  a0_buf_t buf;
  a0_err_t err = a0_packet_deserialize(fp, alloc, &out, &buf);
  if (alloc_fails) {
    vh_assert(err == A0_ERR_FRAME_LARGE, "allocator error is returned");
    untouched(1, 0);
    vh_reach("allocation failed");
    return 0;
  }
  vh_assert(err == A0_OK, "deserialise succeeds");
  untouched(1, asked[1]);
  check_packet(&out);
  vh_reach("deserialised");
}
#elif defined(H_COPY)
int main(void) {
  make();
  nallocs = 1;
  prefill(1);
  alloc_fails = vh_bool();
  a0_packet_t out;
  a0_buf_t buf;
  a0_err_t err = a0_packet_deep_copy(pkt, alloc, &out, &buf);
  if (alloc_fails) {
    vh_assert(err == A0_ERR_FRAME_LARGE, "allocator error is returned");
    untouched(1, 0);
    vh_reach("allocation failed");
    return 0;
  }
  vh_assert(err == A0_OK, "deep copy succeeds");
  untouched(1, asked[1]);
  // The copy must not alias the original.
  for (int i = 0; i < NH; i++) {
    vh_assert(out.headers_block.headers != hdrs, "copy has its own header array");
  }
  check_packet(&out);
  vh_reach("copied");
}
#elif defined(H_ITER)
int main(void) {
  make();
  check_packet(&pkt);
  char q[SLEN + 1];
  symstr(q);
  a0_packet_header_iterator_t it;
  a0_packet_header_iterator_init(&it, &pkt);
  a0_packet_header_t h;
  for (int i = 0; i < NH; i++) {
    if (streq(q, keys[i])) {
      vh_assert(a0_packet_header_iterator_next_match(&it, q, &h) == A0_OK, "lookup finds every match");
      check_hdr(h, i);
#if NH
      vh_reach("lookup matched");
#endif
    }
  }
  vh_assert(a0_packet_header_iterator_next_match(&it, q, &h) != A0_OK, "lookup finds nothing else");
  vh_reach("iterated");
}
#endif
