// Configuration values: histories of writes, conditional writes and reads over
// a real transport, with other writers getting in whenever the lock is free.
#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/cfg.h>
#include <a0/env.h>
#include <a0/middleware.h>
#include <a0/mtx.h>
#include <a0/packet.h>
#include <a0/topic.h>
#include <a0/transport.h>
#include <a0/writer.h>

#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <yyjson.h>

#include "err_macro.h"
#include "vh.h"

#ifndef SIZE
#define SIZE 2048
#endif
#ifndef STEPS
#define STEPS 3
#endif
static _Alignas(16) uint8_t mem[SIZE];
static a0_arena_t arena = {{mem, SIZE}, A0_ARENA_MODE_SHARED};

// ---- the value that was written last, as the reference sees it
static int have, value, next_value = 1;

// ---- stand-ins
static int held, bad_lock, quiet, others_left;
static void other_writer(void);
static void maybe_other(void) {
  if (!quiet && others_left && vh_concrete(vh_bool())) {
    others_left--;
    other_writer();
  }
}
a0_err_t a0_mtx_lock(a0_mtx_t* m) {
  bad_lock |= held;
  maybe_other();
  held = 1;
  return A0_OK;
}
a0_err_t a0_mtx_unlock(a0_mtx_t* m) {
  bad_lock |= !held;
  held = 0;
  return A0_OK;
}
a0_err_t a0_cnd_broadcast(a0_cnd_t* c, a0_mtx_t* m) { return A0_OK; }
static int timed_out;
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) {
  bad_lock |= !held;
  vh_assert(!have, "does not wait while there is a value");
  held = 0;
  if (t && (!others_left || vh_concrete(vh_bool()))) {
    held = 1;
    timed_out = 1;
    return A0_MAKE_SYSERR(ETIMEDOUT);
  }
  vh_assume(others_left > 0);
  others_left--;
  other_writer();
  held = 1;
  return A0_OK;
}
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return a0_cnd_timedwait(c, m, NULL); }
a0_err_t a0_time_mono_now(a0_time_mono_t* t) {
  memset(t, 0, sizeof(*t));
  return A0_OK;
}
a0_err_t a0_time_wall_now(a0_time_wall_t* t) {
  memset(t, 0, sizeof(*t));
  return A0_OK;
}
a0_err_t a0_time_mono_str(a0_time_mono_t t, char s[20]) {
  strcpy(s, "mono");
  return A0_OK;
}
a0_err_t a0_time_wall_str(a0_time_wall_t t, char s[36]) {
  strcpy(s, "wall");
  return A0_OK;
}
static int ids;
void a0_uuidv4(a0_uuid_t id) {
  memset(id, 'a' + ids++, sizeof(a0_uuid_t) - 1);
  id[sizeof(a0_uuid_t) - 1] = 0;
}
const char A0_TIME_MONO[] = "a0_time_mono";
const char A0_TIME_WALL[] = "a0_time_wall";
const char* a0_env_topic_tmpl_cfg(void) { return "cfg"; }

static int fail_open, files_open;
a0_err_t a0_topic_open(const char* tmpl, const char* topic, const a0_file_options_t* opts, a0_file_t* file) {
  if (fail_open) {
    return A0_ERR_BAD_TOPIC;
  }
  vh_assert(!strcmp(tmpl, "cfg") && !strcmp(topic, "name"), "opens the topic it was given");
  memset(file, 0, sizeof(*file));
  file->arena = arena;
  files_open++;
  return A0_OK;
}
a0_err_t a0_file_close(a0_file_t* file) {
  files_open--;
  return A0_OK;
}
// json is not used here
size_t yyjson_read_max_memory_usage(size_t len, size_t flags) { return 0; }
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size) { return false; }
yyjson_doc* yyjson_read_opts(char* data, size_t len, size_t flags, const yyjson_alc* alc, yyjson_read_err* err) { return NULL; }
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc) { return NULL; }
void yyjson_mut_doc_free(yyjson_mut_doc* d) {}
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* d, yyjson_val* a, yyjson_val* b) { return NULL; }
char* yyjson_mut_write_opts(const yyjson_mut_doc* d, size_t flags, const yyjson_alc* alc, size_t* len, yyjson_write_err* err) { return NULL; }

static a0_cfg_t cfg;
static uint8_t bodies[16][4], big[SIZE];
static a0_packet_t packet(int v, int large) {
  a0_packet_t p;
  memset(&p, 0, sizeof(p));
  memset(p.id, 'A' + v, 36);
  uint8_t* b = bodies[v];
  for (int i = 0; i < 4; i++) {
    b[i] = vh_u8();
  }
  p.payload.data = large ? big : b;
  p.payload.size = large ? SIZE : 4;
  return p;
}

static void other_writer(void) {
  quiet++;
  a0_writer_t w;
  a0_writer_init(&w, arena);
  int v = next_value++;
  if (a0_writer_write(&w, packet(v, 0)) == A0_OK) {
    have = 1;
    value = v;
  }
  a0_writer_close(&w);
  quiet--;
}

static int alloc_fail;
static a0_err_t heap_alloc(void* u, size_t n, a0_buf_t* out) {
  if (alloc_fail) {
    return A0_MAKE_SYSERR(ENOMEM);
  }
  out->data = malloc(n);
  out->size = n;
  return A0_OK;
}
static a0_err_t heap_dealloc(void* u, a0_buf_t b) {
  free(b.data);
  return A0_OK;
}

// What is there now, looked at directly.
static uint64_t count(void) {
  uint64_t n = 0;
  a0_transport_t t;
  a0_transport_locked_t l;
  bool empty;
  quiet++;
  a0_transport_init(&t, arena);
  a0_transport_lock(&t, &l);
  a0_transport_empty(l, &empty);
  if (!empty) {
    a0_transport_seq_high(l, &n);
  }
  a0_transport_unlock(l);
  quiet--;
  return n;
}

static void is_value(a0_packet_t* p, int v) {
  int ok = p->payload.size == 4 && p->id[0] == 'A' + v && p->id[35] == 'A' + v;
  vh_assert(ok, "the value written last is read");
  vh_assert((p->payload.data[0] == bodies[v][0]) & (p->payload.data[1] == bodies[v][1]) & (p->payload.data[2] == bodies[v][2]) & (p->payload.data[3] == bodies[v][3]),
            "the content written last is read");
}

static void step(int op) {
  a0_alloc_t al = {NULL, heap_alloc, heap_dealloc};
  uint64_t before = count();
  int others0 = others_left;
  a0_err_t err;
  if (op == 0 || op == 1) {
    int large = (int)vh_concrete(vh_bool());
    int v = next_value++;
    a0_packet_t p = packet(v, large);
    bool written = vh_bool();
    int have0;
    if (op == 0) {
      err = a0_cfg_write(&cfg, p);
      have0 = 0;
    } else {
      int ask = (int)vh_concrete(vh_bool());
      err = a0_cfg_write_if_empty(&cfg, p, ask ? &written : NULL);
      have0 = have;
      if (ask && !err) {
        vh_assert(written == !have0, "a conditional write says whether it wrote");
      }
    }
    uint64_t came = (uint64_t)(others0 - others_left);
    if (large && !have0) {
      vh_assert(err != A0_OK, "a value that does not fit is refused");
      vh_assert(count() == before + came, "a refused value changes nothing");
      vh_reach("refused");
    } else {
      vh_assert(err == A0_OK, "writing succeeds");
      vh_assert(count() == before + came + !have0, "writes once, or not at all if there is a value");
      if (!have0) {
        have = 1;
        value = v;
        vh_reach("written");
      } else {
        vh_reach("left alone");
      }
    }
  } else {
    a0_packet_t out;
    alloc_fail = (int)vh_concrete(vh_bool());
    timed_out = 0;
    a0_time_mono_t t;
    memset(&t, 0, sizeof(t));
    t.ts.tv_sec = 1000;
    int had = have, old_value = value;
    err = op == 2 ? a0_cfg_read(&cfg, al, &out) : op == 3 ? a0_cfg_read_blocking_timeout(&cfg, al, &t, &out) : a0_cfg_read_blocking(&cfg, al, &out);
    vh_assert(count() == before + (uint64_t)(others0 - others_left), "reading changes nothing");
    // a value that came meanwhile may be seen or not
    if (op == 2 && (!have || (!had && err == A0_ERR_AGAIN))) {
      vh_assert(err == A0_ERR_AGAIN, "no value: try again");
      vh_reach("nothing there");
    } else if (timed_out) {
      vh_assert(err == A0_MAKE_SYSERR(ETIMEDOUT), "no value in time");
      vh_reach("timed out");
    } else if (alloc_fail) {
      vh_assert(err != A0_OK, "a failed allocation is reported");
    } else {
      vh_assert(err == A0_OK, "reading succeeds");
      is_value(&out, had && others_left != others0 && out.id[0] == 'A' + old_value ? old_value : value);
      vh_reach("read");
    }
    alloc_fail = 0;
  }
  vh_assert(!held & !bad_lock, "the lock is free afterwards");
}

int main(void) {
  a0_cfg_topic_t topic = {"name", NULL};
  fail_open = (int)vh_concrete(vh_bool());
  quiet++;
  a0_err_t err = a0_cfg_init(&cfg, topic);
  quiet--;
  if (fail_open) {
    vh_assert(err != A0_OK && !files_open, "a failed start is reported");
    return 0;
  }
  vh_assert(err == A0_OK, "starting succeeds");
  others_left = OTHERS;
  step(FIRST);
  for (int s = 1; s < STEPS; s++) {
    step((int)vh_concrete(vh_range(0, 4)));
  }
  vh_assert(a0_cfg_close(&cfg) == A0_OK && !files_open, "closing succeeds");
  return 0;
}
