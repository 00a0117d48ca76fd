// Blocking requests: arbitrary packets arrive while the caller waits.
#include <a0/err.h>
#include <a0/rpc.h>
#include <a0/time.h>

#include <errno.h>

#include "err_macro.h"
#include "wire.h"

#define TYPE "a0_rpc_type"
#define IDKEY "a0_req_id"

static char id[37], other[37];
static a0_rpc_client_t client;
static int sent, answer, answer_err;  // position of the first packet that settles the request

static int limit;
static void foreign(void) {
  limit--;
  static const char* types[] = {NULL, "request", "response", "cancel"};
  char fid[38], text[12], pid[37];
  int kind = (int)vh_concrete(vh_range(0, 4)), form = (int)vh_concrete(vh_range(0, 3));
  sym_id(fid, 0);
  if (kind == 4) {
    memcpy(text, "response", 9);
    text[7] = (char)vh_u8();
    vh_assume(text[7] != 'e');
  }
  int mine = sent && form == 1 && same_id(fid, id);
  if (form == 2) {
    fid[35] = 0;
  } else if (form == 3) {
    fid[36] = 'x';
    fid[37] = 0;
  }
  a0_packet_header_t h[2];
  a0_packet_t p;
  memset(&p, 0, sizeof(p));
  size_t n = 0;
  if (kind) {
    h[n].key = TYPE;
    h[n++].val = kind == 4 ? text : types[kind];
  }
  if (form) {
    h[n].key = IDKEY;
    h[n++].val = fid;
  }
  a0_uuidv4(p.id);
  uint8_t body[1] = {(uint8_t)(100 + wire_n)};
  p.headers_block.headers = h;
  p.headers_block.size = n;
  p.payload.data = body;
  p.payload.size = 1;
  if (mine && answer < 0 && (kind == 2 || kind == 3)) {
    answer = wire_n;
    answer_err = kind == 3;
  }
  wire_append(p);
}

static void after_write(void) {
  sent = 1;
  // the server may be that quick
  if (limit && vh_concrete(vh_bool())) {
    foreign();
  }
}

static int syncs_open, fail_sync, failed_read;
static a0_time_mono_t *given, deadline;
a0_err_t a0_reader_sync_init(a0_reader_sync_t* r, a0_arena_t arena, a0_alloc_t alloc, a0_reader_options_t opts) {
  vh_assert(arena.buf.data == file_mem, "reader on its file");
  if (fail_sync) {
    return A0_ERR_BAD_TOPIC;
  }
  syncs_open++;
  rd_start(&rds[rd_n++], r, opts);
  return A0_OK;
}
a0_err_t a0_reader_sync_close(a0_reader_sync_t* r) {
  rd_drop(r);
  syncs_open--;
  return A0_OK;
}
a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* s, a0_time_mono_t* t, a0_packet_t* out) {
  vh_assert(t == given, "the given deadline");
  rd_t* r = rd_find(s);
  if (r->pos >= wire_n) {
    vh_assert(answer < 0, "does not wait for an answer it already got");
    if (limit == 0 || vh_concrete(vh_bool())) {
      failed_read = 1;
      return A0_MAKE_SYSERR(ETIMEDOUT);
    }
    foreign();
    if (limit && vh_concrete(vh_bool())) {
      foreign();
    }
  }
  int i = rd_next(r);
  *out = wire[i].pkt;
  return A0_OK;
}
a0_err_t a0_reader_sync_read_blocking(a0_reader_sync_t* s, a0_packet_t* out) {
  return a0_reader_sync_read_blocking_timeout(s, NULL, out);
}

int main(void) {
  sym_id(id, 0);
  a0_rpc_topic_t topic = {"t", NULL};
  answer = -1;
  limit = LIMIT;
  // left over from earlier
  a0_packet_header_t oh[2] = {{TYPE, "response"}, {IDKEY, id}};
  a0_packet_t old;
  memset(&old, 0, sizeof(old));
  old.headers_block.headers = oh;
  old.headers_block.size = 2;
  wire_append(old);
  vh_assert(a0_rpc_client_init(&client, topic, heap()) == A0_OK, "starting succeeds");
  fail_sync = (int)vh_concrete(vh_bool());
  fail_write = (int)vh_concrete(vh_bool());
  on_write = after_write;
  a0_packet_t p, out;
  memset(&p, 0, sizeof(p));
  memcpy(p.id, id, 37);
  int timed = (int)vh_concrete(vh_bool());
  given = timed ? &deadline : NULL;
  a0_err_t err = timed ? a0_rpc_client_send_blocking_timeout(&client, p, &deadline, heap(), &out) : a0_rpc_client_send_blocking(&client, p, heap(), &out);
  vh_assert(!syncs_open && !mu_held && !mu_bad, "the waiting reader is closed and the lock free");
  if (fail_sync || fail_write) {
    vh_assert(err != A0_OK, "a failure is reported");
    vh_assert(!sent, "nothing is sent after a failure");
    vh_reach("failed");
  } else if (answer >= 0) {
    if (answer_err) {
      vh_assert(err == A0_ERR_CANCELLED, "a cancelled request says so");
      vh_reach("cancelled");
    } else {
      vh_assert(err == A0_OK, "an answered request succeeds");
      vh_assert(out.payload.size == 1 && out.payload.data[0] == 100 + answer, "the response to this request");
      vh_reach("answered");
    }
  } else {
    vh_assert(failed_read, "waits until answered");
    vh_assert(err == A0_MAKE_SYSERR(ETIMEDOUT), "the reader's failure is reported");
    vh_reach("timed out");
  }
  // the client's own reader sees the same packets
  rd_t* r = rd_find(&client._response_reader);
  for (int i; (i = rd_next(r)) >= 0;) {
    r->cb.fn(r->cb.user_data, wire[i].pkt);
  }
  a0_rpc_client_close(&client);
  vh_assert(!files_open && !writers_open && !rd_n && !mu_live && !mu_bad, "closing gives everything back");
  return 0;
}
