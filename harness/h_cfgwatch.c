// Watching a configuration: values written before and after the start.
#include <a0/cfg.h>

#include "wire.h"

const char* a0_env_topic_tmpl_cfg(void) { return "cfg"; }
// not used by a watcher
a0_err_t a0_writer_wrap(a0_writer_t* a, a0_middleware_t m, a0_writer_t* b) { return A0_OK; }
a0_middleware_t a0_write_if_empty(bool* w) { return a0_add_standard_headers(); }
a0_middleware_t a0_json_mergepatch(void) { return a0_add_standard_headers(); }
a0_err_t a0_reader_sync_init(a0_reader_sync_t* r, a0_arena_t a, a0_alloc_t al, a0_reader_options_t o) { return A0_OK; }
a0_err_t a0_reader_sync_close(a0_reader_sync_t* r) { return A0_OK; }
a0_err_t a0_reader_sync_read(a0_reader_sync_t* r, a0_packet_t* p) { return A0_OK; }
a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* r, a0_time_mono_t* t, a0_packet_t* p) { return A0_OK; }

static int seen = -1, calls;
static void onpacket(void* u, a0_packet_t p) {
  vh_assert(u == &seen, "the given callback");
  int v = p.payload.data[0];
  vh_assert(v > seen, "values are told in order and once");
  vh_assert(p.payload.data[1] == wire[v].pkt.payload.data[1], "the value as it was written");
  seen = v;
  calls++;
}

static void write_some(int max) {
  int n = (int)vh_concrete(vh_range(0, max));
  for (int i = 0; i < n; i++) {
    uint8_t b[2] = {(uint8_t)wire_n, vh_u8()};
    a0_packet_t p;
    memset(&p, 0, sizeof(p));
    p.payload.data = b;
    p.payload.size = 2;
    wire_append(p);
  }
}

static a0_cfg_watcher_t watcher;
static void pump(void) {
  rd_t* r = rd_find(&watcher._reader);
  for (int i; (i = rd_next(r)) >= 0;) {
    r->cb.fn(r->cb.user_data, wire[i].pkt);
  }
}

int main(void) {
  a0_cfg_topic_t topic = {"name", NULL};
  write_some(3);
  int before = wire_n;
  fail_open = (int)vh_concrete(vh_bool());
  fail_reader = (int)vh_concrete(vh_bool());
  a0_err_t err = a0_cfg_watcher_init(&watcher, topic, heap(), (a0_packet_callback_t){&seen, onpacket});
  if (fail_open || fail_reader) {
    vh_assert(err != A0_OK && !files_open && !rd_n, "a failed start is reported and leaves nothing open");
    return 0;
  }
  vh_assert(err == A0_OK && !strcmp(opened_tmpl, "cfg") && !strcmp(opened_topic, "name"), "starting succeeds");
  pump();
  vh_assert(seen == before - 1 && calls == (before > 0), "the value present at the start is told");
  for (int k = 0; k < 2; k++) {
    write_some(3);
    pump();
    vh_assert(seen == wire_n - 1, "the newest value is told");
  }
  a0_cfg_watcher_close(&watcher);
  vh_assert(!files_open && !rd_n, "closing gives everything back");
  vh_reach("end");
  return 0;
}
