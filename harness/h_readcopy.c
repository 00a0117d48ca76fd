// Sync readers that copy the packet out: any payload and headers, any
// allocation failure.
#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/transport.h>

#include <stdlib.h>
#include <string.h>

#include "vh.h"

a0_err_t a0_mtx_lock(a0_mtx_t* m) { return A0_OK; }
a0_err_t a0_mtx_unlock(a0_mtx_t* m) { return A0_OK; }
a0_err_t a0_cnd_broadcast(a0_cnd_t* c, a0_mtx_t* m) { return A0_OK; }
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) { return A0_OK; }
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return A0_OK; }
uint32_t a0_tid(void) { return 1; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  ts->tv_sec = 100;
  ts->tv_nsec = 0;
  return 0;
}

static _Alignas(16) uint8_t mem[1024];
static int fail;
static a0_err_t get(void* u, size_t size, a0_buf_t* out) {
  if (fail) {
    return A0_ERR_CUSTOM_MSG;
  }
  *out = (a0_buf_t){malloc(size), size};
  return A0_OK;
}
static a0_err_t put(void* u, a0_buf_t b) {
  free(b.data);
  return A0_OK;
}

int main() {
  a0_arena_t arena = {{mem, sizeof(mem)}, A0_ARENA_MODE_SHARED};
  a0_transport_t tp;
  a0_transport_locked_t lk;
  a0_transport_init(&tp, arena);
  a0_reader_sync_t rd;
  a0_alloc_t alloc = {NULL, get, put};
  a0_reader_options_t opts = {A0_INIT_OLDEST, A0_ITER_NEXT};
  vh_assert(!a0_reader_sync_init(&rd, arena, alloc, opts), "opening a reader succeeds");

  a0_packet_t in;
  memset(&in, 0, sizeof(in));
  memset(in.id, 'x', sizeof(in.id) - 1);
  uint8_t pay[3];
  char val[3] = {0};
  for (int i = 0; i < 3; i++) pay[i] = vh_u8();
  val[0] = vh_u8();
  val[1] = vh_u8();
  a0_packet_header_t hdr = {"key", val};
  in.headers_block = (a0_packet_headers_block_t){&hdr, 1, NULL};
  in.payload = (a0_buf_t){pay, vh_concrete(vh_range(0, 3))};
  a0_transport_lock(&tp, &lk);
  a0_alloc_t ta;
  a0_transport_allocator(&lk, &ta);
  a0_packet_serialize(in, ta, NULL);
  a0_transport_commit(lk);
  a0_transport_unlock(lk);

  bool can = 0;
  vh_assert(!a0_reader_sync_can_read(&rd, &can) & can, "the message is available");
  fail = (int)vh_concrete(vh_bool());
  a0_packet_t out;
  memset(&out, 0, sizeof(out));
  a0_err_t err;
  a0_time_mono_t t = {{101, 0}};
  switch (vh_concrete(vh_range(0, 2))) {
    case 0: err = a0_reader_sync_read(&rd, &out); break;
    case 1: err = a0_reader_sync_read_blocking(&rd, &out); break;
    default: err = a0_reader_sync_read_blocking_timeout(&rd, &t, &out);
  }
  if (fail) {
    vh_assert(err == A0_ERR_CUSTOM_MSG, "a read that cannot allocate the packet reports it");
    vh_reach("allocation failure");
    return 0;
  }
  vh_assert(!err, "the read succeeds");
  vh_assert(!memcmp(out.id, in.id, sizeof(a0_uuid_t)), "the packet keeps its id");
  vh_assert(out.payload.size == in.payload.size && !memcmp(out.payload.data, pay, in.payload.size), "the packet keeps its payload");
  vh_assert(out.headers_block.size == 1 && !strcmp(out.headers_block.headers[0].key, "key") && !strcmp(out.headers_block.headers[0].val, val), "the packet keeps its headers");
  vh_reach("copied");
  return 0;
}
