// Writers: any composition of the shipped middleware up to a depth, any arena
// size, another writer getting in first, failures on the way.
#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/middleware.h>
#include <a0/mtx.h>
#include <a0/packet.h>
#include <a0/transport.h>
#include <a0/writer.h>

#include <stdlib.h>
#include <string.h>
#include <yyjson.h>

#include "vh.h"

#define MAX 2048
static _Alignas(16) uint8_t mem[MAX];
static a0_arena_t arena;
static a0_transport_t tp;  // for looking on
static a0_transport_locked_t lk;

// ---- stand-ins
static int held, bad_lock, quiet, others;
static void other_writer(void);
a0_err_t a0_mtx_lock(a0_mtx_t* m) {
  bad_lock |= held;
#ifdef OTHERS
  if (!quiet && !others && vh_concrete(vh_bool())) {
    others++;
    other_writer();
  }
#endif
  held = 1;
  return A0_OK;
}
a0_err_t a0_mtx_unlock(a0_mtx_t* m) {
  bad_lock |= !held;
  held = 0;
  return A0_OK;
}
a0_err_t a0_cnd_broadcast(a0_cnd_t* c, a0_mtx_t* m) {
  bad_lock |= !held;
  return A0_OK;
}
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) { return A0_OK; }
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return A0_OK; }
a0_err_t a0_time_mono_now(a0_time_mono_t* t) {
  memset(t, 0, sizeof(*t));
  return A0_OK;
}
a0_err_t a0_time_wall_now(a0_time_wall_t* t) {
  memset(t, 0, sizeof(*t));
  return A0_OK;
}
static char mono[20] = "mono", wall[36] = "wall";
a0_err_t a0_time_mono_str(a0_time_mono_t t, char s[20]) {
  strcpy(s, mono);
  return A0_OK;
}
a0_err_t a0_time_wall_str(a0_time_wall_t t, char s[36]) {
  strcpy(s, wall);
  return A0_OK;
}
static int ids;
void a0_uuidv4(a0_uuid_t id) {
  memset(id, 'a' + ids++, sizeof(a0_uuid_t) - 1);
  id[sizeof(a0_uuid_t) - 1] = 0;
}
const char A0_TIME_MONO[] = "a0_time_mono";
const char A0_TIME_WALL[] = "a0_time_wall";

// ---- the json library
static int json_fail;
size_t yyjson_read_max_memory_usage(size_t len, size_t flags) { return json_fail == 1 ? 0 : 16; }
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size) { return true; }
static yyjson_doc doc;
static int reads;
yyjson_doc* yyjson_read_opts(char* data, size_t len, size_t flags, const yyjson_alc* alc, yyjson_read_err* err) {
  int fails = json_fail == 2 + (reads++ & 1);
  err->code = fails;
  err->msg = "bad";
  return fails ? NULL : &doc;
}
static yyjson_mut_doc mdoc;
static int mdocs;
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc) {
  mdocs++;
  return &mdoc;
}
void yyjson_mut_doc_free(yyjson_mut_doc* d) { mdocs--; }
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* d, yyjson_val* a, yyjson_val* b) { return NULL; }
static char merged[] = "{merged}";
char* yyjson_mut_write_opts(const yyjson_mut_doc* d, size_t flags, const yyjson_alc* alc, size_t* len, yyjson_write_err* err) {
  err->code = json_fail == 4;
  err->msg = "bad";
  *len = 8;
  return merged;
}

// ---- a middleware of the user that may refuse a packet
static int refuse, passed;
static a0_err_t user_process(void* u, a0_packet_t* pkt, a0_middleware_chain_t chain) {
  vh_assert(!held, "the first pass through the middleware runs unlocked");
  passed++;
  if (refuse) {
    return A0_ERR_CUSTOM_MSG;
  }
  return a0_middleware_chain(chain, pkt);
}

static void other_writer(void) {
  quiet++;
  a0_transport_t t;
  a0_transport_locked_t l;
  a0_transport_init(&t, arena);
  a0_transport_lock(&t, &l);
  a0_transport_frame_t* f;
  if (!a0_transport_alloc(l, 8, &f)) {
    memset(f->data, 'o', 8);
    a0_transport_commit(l);
  } else {
    others = 0;
    vh_assume(0);
  }
  a0_transport_unlock(l);
  quiet--;
}

// ---- which headers the composition adds
enum { MONO, WALL, WID, WSEQ, TSEQ, KINDS };
static const char* names[KINDS];
static int adds[KINDS], cond, merges, user;
static bool cond_written;

static a0_middleware_t pick(int k) {
  switch (k) {
    case 0: adds[MONO]++; return a0_add_time_mono_header();
    case 1: adds[WALL]++; return a0_add_time_wall_header();
    case 2: adds[WID]++; return a0_add_writer_id_header();
    case 3: adds[WSEQ]++; return a0_add_writer_seq_header();
    case 4: adds[TSEQ]++; return a0_add_transport_seq_header();
    case 5:
      for (int i = 0; i < KINDS; i++) adds[i]++;
      return a0_add_standard_headers();
    case 6: cond++; return a0_write_if_empty(&cond_written);
    case 7: merges++; return a0_json_mergepatch();
    default: user++; return (a0_middleware_t){NULL, NULL, user_process, NULL};
  }
}

static uint64_t high(void) {
  uint64_t v = 0;
  a0_transport_seq_high(lk, &v);
  return v;
}
static uint64_t lowest(void) {
  uint64_t v = 0;
  a0_transport_seq_low(lk, &v);
  return v;
}

static a0_writer_t w0, w1;
static int writes;

static void one(a0_writer_t* w, int second) {
  uint8_t pay[4];
  for (int i = 0; i < 4; i++) pay[i] = vh_u8();
  char uid[sizeof(a0_uuid_t)];
  memset(uid, second ? '2' : '1', sizeof(uid) - 1);
  uid[sizeof(uid) - 1] = 0;
  a0_packet_header_t hdrs[2] = {{"k", "first"}, {"k", "second"}};
  a0_packet_t pkt;
  memset(&pkt, 0, sizeof(pkt));
  memcpy(pkt.id, uid, sizeof(uid));
  pkt.headers_block = (a0_packet_headers_block_t){hdrs, 2, NULL};
  pkt.payload = (a0_buf_t){pay, 4};

  quiet++;
  a0_transport_lock(&tp, &lk);
  uint64_t high0 = high();
  bool empty0;
  a0_transport_empty(lk, &empty0);
  a0_transport_unlock(lk);
  quiet--;

  int others0 = others;
  reads = 0;
  a0_err_t err = a0_writer_write(w, pkt);
  int got_in = others - others0;
  vh_assert(!held & !bad_lock, "the lock is released when the write returns");
  vh_assert(!mdocs, "the merged document is freed");

  quiet++;
  a0_transport_lock(&tp, &lk);
  uint64_t high1 = high();
  int skip = cond && !(empty0 && !got_in);
  if (err) {
    vh_assert(high1 == high0 + got_in, "a failed write publishes nothing");
    vh_reach("failed");
  } else if (skip) {
    vh_assert(high1 == high0 + got_in, "a conditional write to a transport with messages publishes nothing");
    vh_assert(!cond_written, "a conditional write reports that nothing was written");
    vh_reach("skipped");
  } else {
    vh_assert(high1 == high0 + got_in + 1, "a successful write publishes exactly one message");
    vh_assert(!refuse | !user, "a write refused by a middleware fails");
    if (cond) vh_assert(cond_written, "a conditional write reports that it wrote");
    a0_transport_frame_t* f = NULL;
    vh_assert(!a0_transport_jump_tail(lk) & !a0_transport_frame(lk, &f), "the message can be read");
    a0_flat_packet_t flat = {{f->data, f->hdr.data_size}};
    a0_uuid_t* fid;
    a0_flat_packet_id(flat, &fid);
    vh_assert(!memcmp(fid, uid, sizeof(uid)), "the message has the caller's id");
    a0_buf_t fpay;
    a0_flat_packet_payload(flat, &fpay);
    if (merges && !(empty0 && !got_in)) {
      vh_assert(fpay.size == 8 && !memcmp(fpay.data, merged, 8), "the message has the merged payload");
    } else {
      vh_assert(fpay.size == 4 && !memcmp(fpay.data, pay, 4), "the message has the caller's payload");
    }
    a0_packet_stats_t st;
    a0_flat_packet_stats(flat, &st);
    int total = 2;
    for (int i = 0; i < KINDS; i++) total += adds[i];
    vh_assert(st.num_hdrs == (size_t)total, "the message has the caller's headers and each added one once");
    int seen[KINDS] = {0}, mine = 0, ok = 1;
    for (int i = 0; i < total; i++) {
      a0_packet_header_t h = {0};
      a0_flat_packet_header(flat, i, &h);
      if (!strcmp(h.key, "k")) {
        ok &= !strcmp(h.val, mine ? "second" : "first");
        mine++;
      }
      for (int k = 0; k < KINDS; k++) {
        if (!strcmp(h.key, names[k])) {
          seen[k]++;
          if (k == MONO) ok &= !strcmp(h.val, mono);
          if (k == WALL) ok &= !strcmp(h.val, wall);
          if (k == WID) ok &= strlen(h.val) == sizeof(a0_uuid_t) - 1;
          if (k == WSEQ) ok &= h.val[0] == '0' + writes && !h.val[1];
        }
      }
    }
    vh_assert(ok & (mine == 2), "the headers keep their values and the caller's their order");
    for (int k = 0; k < KINDS; k++) {
      vh_assert(seen[k] == adds[k], "each standard header is added once per middleware");
    }
    vh_reach("written");
  }
  a0_transport_unlock(lk);
  quiet--;
  if (!(user && refuse) ) writes++;
}

int main() {
  names[MONO] = A0_TIME_MONO;
  names[WALL] = A0_TIME_WALL;
  names[WID] = "a0_writer_id";
  names[WSEQ] = "a0_writer_seq";
  names[TSEQ] = "a0_transport_seq";
  uint64_t size = vh_symr(12, 144, MAX);
  arena = (a0_arena_t){{mem, size}, A0_ARENA_MODE_SHARED};
  quiet++;
  vh_assert(!a0_transport_init(&tp, arena), "opening the arena succeeds");
  vh_assert(!a0_writer_init(&w0, arena), "opening a writer succeeds");
  quiet--;
  a0_writer_t* w = &w0;
#if DEPTH >= 1
  // One composed onto the writer, one wrapped around it.
  vh_assert(!a0_writer_push(&w0, pick(FIRST)), "adding a middleware succeeds");
#endif
#if DEPTH >= 3
  vh_assert(!a0_writer_push(&w0, pick((int)vh_concrete(vh_range(0, 8)))), "adding a middleware succeeds");
#endif
#if DEPTH >= 2
  vh_assert(!a0_writer_wrap(&w0, pick((int)vh_concrete(vh_range(0, 8))), &w1), "wrapping a writer succeeds");
  w = &w1;
#endif
  refuse = user ? (int)vh_concrete(vh_bool()) : 0;
  json_fail = merges ? (int)vh_concrete(vh_range(0, 4)) : 0;
  one(w, 0);
  one(w, 1);
  if (w == &w1) a0_writer_close(&w1);
  vh_assert(!a0_writer_close(&w0), "closing succeeds");
  vh_assert(vh_live_heap() == 0, "closing frees everything");
  return 0;
}
