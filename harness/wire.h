// A shared topic file as clients and servers see it: an append-only log of
// packets, readers that follow it as their options say, writers that append.
#ifndef WIRE_H
#define WIRE_H

#include <a0/alloc.h>
#include <a0/env.h>
#include <a0/file.h>
#include <a0/middleware.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/topic.h>
#include <a0/uuid.h>
#include <a0/writer.h>

#include <pthread.h>
#include <stdlib.h>
#include <string.h>

#include "vh.h"
#include "vlibc.h"

#ifndef LOGMAX
#define LOGMAX 12
#endif
#define HDRMAX 8

typedef struct {
  a0_packet_t pkt;
  a0_packet_header_t hdrs[HDRMAX];
  char kind, idform;  // of foreign packets
} entry_t;
static entry_t wire[LOGMAX];
static int wire_n;

static char* dup_exact(const char* s) {
  size_t n = strlen(s) + 1;
  char* r = malloc(n);
  memcpy(r, s, n);
  return r;
}

// Appends a copy of the packet, every string in a block of its exact size.
static entry_t* wire_append(a0_packet_t pkt) {
  vh_assume(wire_n < LOGMAX);
  entry_t* e = &wire[wire_n];
  e->pkt = pkt;
  size_t n = 0;
  for (a0_packet_headers_block_t* b = &pkt.headers_block; b; b = b->next_block) {
    for (size_t i = 0; i < b->size; i++) {
      vh_assert(n < HDRMAX, "more headers than were given");
      e->hdrs[n].key = dup_exact(b->headers[i].key);
      e->hdrs[n].val = dup_exact(b->headers[i].val);
      n++;
    }
  }
  e->pkt.headers_block.headers = e->hdrs;
  e->pkt.headers_block.size = n;
  e->pkt.headers_block.next_block = NULL;
  e->pkt.payload.data = malloc(pkt.payload.size ? pkt.payload.size : 1);
  memcpy(e->pkt.payload.data, pkt.payload.data, pkt.payload.size);
  wire_n++;
  return e;
}

static const char* hdr(const a0_packet_t* p, const char* key) {
  for (size_t i = 0; i < p->headers_block.size; i++) {
    if (!strcmp(p->headers_block.headers[i].key, key)) {
      return p->headers_block.headers[i].val;
    }
  }
  return NULL;
}

// ---- files and topics
static int files_open, opens;
static const char *opened_tmpl, *opened_topic;
static const a0_file_options_t* opened_opts;
static int fail_open, fail_writer_init, fail_push, fail_reader, fail_write;
static uint8_t file_mem[16];
a0_err_t a0_topic_open(const char* tmpl, const char* topic, const a0_file_options_t* opts, a0_file_t* file) {
  if (fail_open) {
    return A0_ERR_BAD_TOPIC;
  }
  opened_tmpl = tmpl;
  opened_topic = topic;
  opened_opts = opts;
  memset(file, 0, sizeof(*file));
  file->arena.buf.data = file_mem;
  file->arena.buf.size = sizeof(file_mem);
  files_open++;
  opens++;
  return A0_OK;
}
a0_err_t a0_file_close(a0_file_t* file) {
  vh_assert(file->arena.buf.data == file_mem, "closes a file that is not open");
  file->arena.buf.data = NULL;
  files_open--;
  return A0_OK;
}
const char* a0_env_topic_tmpl_rpc(void) { return "rpc"; }
const char* a0_env_topic_tmpl_prpc(void) { return "prpc"; }
const char* a0_env_topic_tmpl_log(void) { return "log"; }
const char* a0_env_topic(void) { return "own"; }

// ---- writers
static int writers_open;
static a0_writer_t* writer_ok[4];
static void (*on_write)(void);
a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
  if (fail_writer_init) {
    return A0_ERR_BAD_TOPIC;
  }
  vh_assert(arena.buf.data == file_mem, "writer on its file");
  memset(w, 0, sizeof(*w));
  writer_ok[writers_open++] = w;
  return A0_OK;
}
a0_err_t a0_writer_close(a0_writer_t* w) {
  int found = 0;
  for (int i = 0; i < writers_open; i++) {
    if (writer_ok[i] == w) {
      found = 1;
      writer_ok[i] = writer_ok[writers_open - 1];
      writers_open--;
      break;
    }
  }
  vh_assert(found, "closes a writer that is not open");
  return A0_OK;
}
a0_err_t a0_writer_push(a0_writer_t* w, a0_middleware_t m) {
  return fail_push ? A0_ERR_BAD_TOPIC : A0_OK;
}
a0_err_t a0_writer_write(a0_writer_t* w, a0_packet_t pkt) {
  int found = 0;
  for (int i = 0; i < writers_open; i++) {
    found |= writer_ok[i] == w;
  }
  vh_assert(found, "writes with an open writer");
  if (fail_write) {
    return A0_ERR_FRAME_LARGE;
  }
  wire_append(pkt);
  if (on_write) {
    on_write();
  }
  return A0_OK;
}
static a0_err_t no_process(void* user_data, a0_packet_t* pkt, a0_middleware_chain_t chain) { return A0_OK; }
a0_middleware_t a0_add_standard_headers(void) {
  a0_middleware_t m;
  memset(&m, 0, sizeof(m));
  return m;
}

// ---- readers
typedef struct {
  void* who;
  a0_packet_callback_t cb;
  a0_reader_options_t opts;
  int pos, first;
} rd_t;
static rd_t rds[4];
static int rd_n;
static void rd_start(rd_t* r, void* who, a0_reader_options_t opts) {
  r->who = who;
  r->opts = opts;
  r->pos = opts.init == A0_INIT_AWAIT_NEW ? wire_n : opts.init == A0_INIT_OLDEST ? 0 : wire_n ? wire_n - 1 : 0;
}
static rd_t* rd_find(void* who) {
  for (int i = 0; i < rd_n; i++) {
    if (rds[i].who == who) {
      return &rds[i];
    }
  }
  vh_assert(0, "uses a reader that is not open");
  return NULL;
}
// Next packet for this reader, -1 if none.
static int rd_next(rd_t* r) {
  if (r->pos >= wire_n) {
    return -1;
  }
  if (r->opts.iter == A0_ITER_NEWEST) {
    r->pos = wire_n - 1;
  }
  return r->pos++;
}
static void rd_drop(void* who) {
  rd_t* r = rd_find(who);
  rd_n--;
  *r = rds[rd_n];
}
a0_err_t a0_reader_init(a0_reader_t* reader, a0_arena_t arena, a0_alloc_t alloc, a0_reader_options_t opts, a0_packet_callback_t cb) {
  if (fail_reader) {
    return A0_ERR_BAD_TOPIC;
  }
  vh_assert(arena.buf.data == file_mem, "reader on its file");
  rd_t* r = &rds[rd_n++];
  rd_start(r, reader, opts);
  r->cb = cb;
  return A0_OK;
}
a0_err_t a0_reader_close(a0_reader_t* reader) {
  rd_drop(reader);
  return A0_OK;
}

// ---- process-private mutex
static int mu_live, mu_held, mu_bad;
int vh_mu_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  mu_live++;
  return 0;
}
int vh_mu_destroy(pthread_mutex_t* m) {
  mu_bad |= mu_held;
  mu_live--;
  return 0;
}
int vh_mu_lock(pthread_mutex_t* m) {
  mu_bad |= mu_held | !mu_live;
  mu_held = 1;
  return 0;
}
int vh_mu_unlock(pthread_mutex_t* m) {
  mu_bad |= !mu_held;
  mu_held = 0;
  return 0;
}

// ---- ids
static int ids;
void a0_uuidv4(a0_uuid_t id) {
  memcpy(id, "ffffffff-0000-4000-8000-000000000000", 37);
  id[35] += ids++;
}
// Ids differ in two arbitrary characters, one the hash looks at or not.
static void sym_id(char* id, int hi) {
  memcpy(id, "01234567-89ab-4cde-8123-456789abcdef", 37);
  id[0] = hi ? '1' : '0';
  id[24] = (char)vh_u8();
  id[35] = (char)vh_u8();
  vh_assume((id[24] > 0x20) & (id[24] < 0x7f) & (id[35] > 0x20) & (id[35] < 0x7f));
}
// The bytes in which two ids made that way can differ.
static int same_id(const char* a, const char* b) {
  return (a[0] == b[0]) & (a[24] == b[24]) & (a[35] == b[35]);
}

static a0_alloc_t heap(void);
static a0_err_t heap_alloc(void* u, size_t n, a0_buf_t* out) {
  out->data = malloc(n ? n : 1);
  out->size = n;
  return A0_OK;
}
static a0_err_t heap_dealloc(void* u, a0_buf_t b) {
  free(b.data);
  return A0_OK;
}
static a0_alloc_t heap(void) {
  a0_alloc_t a;
  memset(&a, 0, sizeof(a));
  a.alloc = heap_alloc;
  a.dealloc = heap_dealloc;
  return a;
}

#endif
