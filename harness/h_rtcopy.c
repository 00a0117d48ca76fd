// Threaded readers that copy the packet out before calling back: any schedule
// of reader, closer and writers, any allocation failure.
#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/transport.h>

#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include "vh.h"

static a0_err_t sys_err(int code) {
  a0_err_syscode = code;
  return A0_ERR_SYS;
}
#include "h_threads.h"

#ifndef STEPS
#define STEPS 6
#endif

static _Alignas(16) uint8_t mem[2048];
static a0_transport_t tp;
static a0_transport_locked_t lk;
static a0_reader_t rd;
static int written, closed, seen, lost, out_bufs;

static a0_err_t get(void* u, size_t size, a0_buf_t* out) {
  if (vh_concrete(vh_bool())) {
    lost++;
    return A0_ERR_CUSTOM_MSG;
  }
  *out = (a0_buf_t){malloc(size), size};
  out_bufs++;
  return A0_OK;
}
static a0_err_t put(void* u, a0_buf_t b) {
  free(b.data);
  out_bufs--;
  return A0_OK;
}

static void onpacket(void* u, a0_packet_t pkt) {
  vh_assert(!closed, "no callback after closing has returned");
  vh_assert((cur == 1) & (owner != 1), "the callback runs on the reader's thread with the transport unlocked");
  vh_assert(pkt.payload.size == 2 && pkt.payload.data[0] == 'p' && pkt.payload.data[1] == seen + lost, "callbacks are made with the packets in order, none skipped");
  vh_assert(pkt.headers_block.size == 1 && !strcmp(pkt.headers_block.headers[0].key, "key") && !strcmp(pkt.headers_block.headers[0].val, "val"), "the packet keeps its headers");
  seen++;
  vh_reach("delivered");
  give_way(RUN);
  vh_assert(pkt.payload.data[0] == 'p', "the packet stays readable during the callback");
}

static void do_write(void) {
  uint8_t pay[2] = {'p', (uint8_t)written};
  a0_packet_header_t hdr = {"key", "val"};
  a0_packet_t in;
  memset(&in, 0, sizeof(in));
  memset(in.id, 'x', sizeof(in.id) - 1);
  in.headers_block = (a0_packet_headers_block_t){&hdr, 1, NULL};
  in.payload = (a0_buf_t){pay, 2};
  a0_transport_lock(&tp, &lk);
  a0_alloc_t ta;
  a0_transport_allocator(&lk, &ta);
  a0_packet_serialize(in, ta, NULL);
  a0_transport_commit(lk);
  a0_transport_unlock(lk);
  written++;
}

static void closer(void* u) {
  vh_assert(!a0_reader_close(&rd), "closing succeeds");
  closed = 1;
  vh_assert(vh_done(1), "the reader's thread has ended once closing returns");
  vh_assert(owner < 0, "closing releases the lock");
  vh_reach("closed");
}

int main() {
  a0_arena_t arena = {{mem, sizeof(mem)}, A0_ARENA_MODE_SHARED};
  a0_transport_init(&tp, arena);
  a0_alloc_t alloc = {NULL, get, put};
  a0_packet_callback_t cb = {NULL, onpacket};
  a0_reader_options_t opts = {A0_INIT_OLDEST, A0_ITER_NEXT};
  vh_assert(!a0_reader_init(&rd, arena, alloc, opts, cb), "opening a reader succeeds");
  for (int i = 0; i < STEPS; i++) {
    switch (vh_concrete(vh_range(0, 2))) {
      case 0:
        if (owner >= 0 || written > 1) vh_assume(0);
        do_write();
        break;
      case 1:
        if (!enabled(1)) vh_assume(0);
        run(1);
        break;
      default:
        if (!started[2]) {
          vh_spawn(closer, NULL);
          started[2] = 1;
        }
        if (!enabled(2)) vh_assume(0);
        run(2);
    }
  }
  for (int i = 0; i < 40 && (enabled(1) || enabled(2)); i++) {
    run(enabled(1) ? 1 : 2);
  }
  vh_assert(!enabled(1) && !enabled(2), "the threads come to rest");
  if (started[2]) {
    vh_assert(closed, "closing returns");
  } else {
    vh_assert(seen + lost == written, "every message is delivered, or could not be copied");
    if (lost) vh_reach("not copied");
  }
  vh_assert(!out_bufs, "every copy is freed exactly once");
  vh_assert(!bad_lock & (owner < 0), "the lock is used properly and released");
  return 0;
}
