// Loggers and listeners over a shared topic.
#include <a0/log.h>

#include "wire.h"

static const char* const words[] = {"CRIT", "ERR", "WARN", "INFO", "DBG"};
static int calls, call_same;
static a0_packet_t* cur;
static void onmsg(void* u, a0_packet_t p) {
  calls++;
  int ok = u == &calls && cur != NULL;
  ok = ok && p.payload.size == cur->payload.size && p.headers_block.size == cur->headers_block.size;
  ok = ok && !memcmp(p.payload.data, cur->payload.data, cur->payload.size) && !memcmp(p.id, cur->id, 37);
  call_same = ok;
}

static a0_packet_t message(uint8_t* body, a0_packet_header_t* h, size_t n) {
  a0_packet_t p;
  memset(&p, 0, sizeof(p));
  a0_uuidv4(p.id);
  p.headers_block.headers = h;
  p.headers_block.size = n;
  p.payload.data = body;
  p.payload.size = 2;
  return p;
}

// Level of a text, -1 if it names none.
static int level_of(const char* t) {
  for (int i = 0; i < 5; i++) {
    if (!strcmp(t, words[i])) {
      return i;
    }
  }
  return -1;
}

static a0_log_listener_t listener;
static int pos;
static a0_log_level_t listen_level;
static int wanted(int i) {
  const char* t = hdr(&wire[i].pkt, "a0_log_level");
  int l = t ? level_of(t) : -1;
  return l >= 0 && l <= (int)listen_level;
}
static void pump(int newest) {
  rd_t* r = rd_find(&listener._reader);
  for (int i; (i = rd_next(r)) >= 0;) {
    if (!newest) {
      vh_assert(i == pos, "every message, in order");
    }
    pos = i + 1;
    calls = 0;
    cur = &wire[i].pkt;
    r->cb.fn(r->cb.user_data, wire[i].pkt);
    int w = wanted(i);
    vh_assert(calls == w, "the callback runs for exactly the messages at or above its level");
    if (w) {
      vh_assert(call_same, "the message as it was written");
      vh_reach("delivered");
    } else {
      vh_reach("filtered");
    }
    cur = NULL;
  }
  vh_assert(pos == wire_n, "the newest message is looked at");
}

#ifdef LISTEN
// A packet with a level.
static void plain(void) {
  uint8_t body[2] = {1, 2};
  a0_packet_header_t h[1] = {{"a0_log_level", words[2 * vh_concrete(vh_range(0, 1)) + 1]}};
  wire_append(message(body, h, 1));
}
// A packet whose level is any text of at most 5 bytes, or missing.
static void foreign(void) {
  char text[6];
  uint8_t body[2] = {vh_u8(), vh_u8()};
  a0_packet_header_t h[3];
  size_t n = 0;
  int where = (int)vh_concrete(vh_range(0, 2)), has = (int)vh_concrete(vh_bool());
  for (int i = 0; i < 5; i++) {
    text[i] = (char)vh_u8();
  }
  text[5] = 0;
  // the length is fixed here so that the text can be copied
  size_t len = 0;
  while (text[len]) {
    len++;
  }
  for (int i = 0; i < 3; i++) {
    if (i == where) {
      if (has) {
        h[n].key = "a0_log_level";
        h[n++].val = text;
      }
    } else {
      h[n].key = i ? "other" : "a0_log_levels";
      h[n++].val = "CRIT";
    }
  }
  wire_append(message(body, h, n));
}

int main(void) {
  a0_log_topic_t topic = {"t", NULL};
  a0_reader_options_t opts;
  opts.init = (a0_reader_init_t)vh_concrete(vh_range(0, 2));
  opts.iter = (a0_reader_iter_t)vh_concrete(vh_range(0, 1));
#if BEFORE
  plain();
#if BEFORE > 1
  foreign();
#endif
#endif
  pos = opts.init == A0_INIT_AWAIT_NEW ? wire_n : opts.init == A0_INIT_OLDEST ? 0 : wire_n ? wire_n - 1 : 0;
  listen_level = (a0_log_level_t)vh_concrete(vh_range(A0_LOG_LEVEL_MIN, A0_LOG_LEVEL_MAX));
  a0_packet_callback_t cb = {&calls, onmsg};
  fail_open = (int)vh_concrete(vh_bool());
  fail_reader = (int)vh_concrete(vh_bool());
  a0_err_t err = a0_log_listener_init(&listener, topic, heap(), listen_level, opts, cb);
  if (fail_open || fail_reader) {
    vh_assert(err != A0_OK && !files_open && !rd_n, "a failed start is reported and leaves nothing open");
    return 0;
  }
  vh_assert(err == A0_OK && !strcmp(opened_tmpl, "log") && !strcmp(opened_topic, "t"), "starting succeeds");
  pump(opts.iter == A0_ITER_NEWEST);
#if AFTER
  foreign();
#endif
  plain();
#if AFTER > 1
  foreign();
#endif
  pump(opts.iter == A0_ITER_NEWEST);
  a0_log_listener_close(&listener);
  vh_assert(!files_open && !rd_n, "closing gives everything back");
  return 0;
}
#else
// What one side logs, a listener of any level sees.
static a0_logger_t logger;
int main(void) {
  a0_log_topic_t topic = {"t", NULL};
  a0_packet_callback_t cb = {&calls, onmsg};
  a0_reader_options_t opts = {A0_INIT_AWAIT_NEW, A0_ITER_NEXT};
  int fail = (int)vh_concrete(vh_range(0, 3));
  fail_open = fail == 1;
  fail_writer_init = fail == 2;
  fail_push = fail == 3;
  a0_err_t err = a0_logger_init(&logger, topic);
  if (fail) {
    vh_assert(err != A0_OK && !files_open && !writers_open, "a failed start is reported and leaves nothing open");
    return 0;
  }
  vh_assert(err == A0_OK && !strcmp(opened_tmpl, "log") && !strcmp(opened_topic, "t"), "starting succeeds");
  listen_level = (a0_log_level_t)vh_concrete(vh_range(A0_LOG_LEVEL_MIN, A0_LOG_LEVEL_MAX));
  vh_assert(a0_log_listener_init(&listener, topic, heap(), listen_level, opts, cb) == A0_OK, "listening succeeds");
  for (int k = 0; k < 2; k++) {
    int f = (int)vh_concrete(vh_range(0, 9));
    uint8_t body[2] = {vh_u8(), vh_u8()};
    a0_packet_header_t h[1] = {{"user", "x"}};
    a0_packet_t p = message(body, h, 1);
    int level = f % 5, before = wire_n;
    fail_write = (int)vh_concrete(vh_bool());
    err = f == 0   ? a0_logger_crit(&logger, p)
          : f == 1 ? a0_logger_err(&logger, p)
          : f == 2 ? a0_logger_warn(&logger, p)
          : f == 3 ? a0_logger_info(&logger, p)
          : f == 4 ? a0_logger_dbg(&logger, p)
                   : a0_logger_log(&logger, (a0_log_level_t)level, p);
    if (fail_write) {
      vh_assert(err != A0_OK && wire_n == before, "a failed write is reported");
      continue;
    }
    vh_assert(err == A0_OK && wire_n == before + 1, "one message per call");
    a0_packet_t* w = &wire[before].pkt;
    const char* t = hdr(w, "a0_log_level");
    const char* u = hdr(w, "user");
    int ok = t && level_of(t) == level && u && !strcmp(u, "x") && !memcmp(w->id, p.id, 37);
    vh_assert(ok, "the message records the level of the call");
    vh_assert(w->payload.size == 2 && w->payload.data[0] == body[0] && w->payload.data[1] == body[1], "the payload is unchanged");
    calls = 0;
    pump(0);
    vh_assert(calls == (level <= (int)listen_level), "a listener sees it if it is at or above its level");
  }
  a0_log_listener_close(&listener);
  a0_logger_close(&logger);
  vh_assert(!files_open && !rd_n && !writers_open, "closing gives everything back");
  vh_reach("end");
  return 0;
}
#endif
